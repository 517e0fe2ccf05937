package lab

import (
	"crypto/sha256"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"

	"github.com/anishathalye/porcupine"
)

// The registry world: registrations, seals, encodings, decodings and table
// printing on one codec, from several tasks. The recorded history must be
// linearizable with respect to a sequential registry.
//
// The sequential registry is: an ordered list of the registrations that took
// effect, and whether the codec is sealed. Which registrations it accepts is
// decided by the rules below, written from the documentation. What an encoding
// returns in a state is what a fresh reference codec with exactly those
// registrations returns.

// hop is an operation of a history.
type hop struct {
	id    int
	op    *sys.Op
	reg   int          // index of the registration, if one
	touch reflect.Type // the concrete type it looks up
	parts bool         // and those of its fields (of Outer)
	call  int64
	ret   int64
	task  int
	got   sys.Result
}

type registry struct {
	r     *Run
	c     sys.Codec
	regs  []sys.Reg
	hops  []*hop
	clock int64
	refs  map[string]sys.Codec
	memo  map[string]sys.Result
	alone []bool // what a fresh codec accepts
	bad   string
}

func prefixOf(name string) [4]byte {
	h := sha256.Sum256([]byte(name))
	b := h[:]
	for b[0] == 0 {
		b = b[1:]
	}
	b = b[3:]
	for b[0] == 0 {
		b = b[1:]
	}
	var p [4]byte
	copy(p[:], b)
	return p
}

// allowed tells whether a registration conflicts with none of a set.
func allowed(set []sys.Reg, n sys.Reg) bool {
	var ifs []sys.Reg
	var cs []sys.Reg
	for _, r := range append(append([]sys.Reg(nil), set...), n) {
		if r.Iface != nil {
			for _, o := range ifs {
				if o.Iface.RT == r.Iface.RT {
					return false
				}
			}
			ifs = append(ifs, r)
			continue
		}
		for _, o := range cs {
			if o.Conc.RT == r.Conc.RT || o.Name == r.Name {
				return false
			}
		}
		cs = append(cs, r)
	}
	for _, i := range ifs {
		groups := map[[4]byte][]string{}
		for _, c := range cs {
			if reflect.PtrTo(c.Conc.RT).Implements(i.Iface.RT) {
				p := prefixOf(c.Name)
				groups[p] = append(groups[p], c.Name)
			}
		}
		prio := map[string]bool{}
		if i.Opts != nil {
			for _, n := range i.Opts.Prio {
				prio[n] = true
			}
		}
		for _, g := range groups {
			if len(g) < 2 {
				continue
			}
			for _, n := range g {
				if !prio[n] {
					return false
				}
			}
		}
	}
	return true
}

func (g *registry) set(state string) []sys.Reg {
	var out []sys.Reg
	for i := 1; i < len(state); i++ {
		out = append(out, g.regs[state[i]])
	}
	return out
}

// want is what an operation returns in a state.
func (g *registry) want(state string, h *hop) (sys.Result, bool) {
	key := []byte(state[1:])
	if h.op.Kind != sys.Print {
		sort.Slice(key, func(i, j int) bool { return key[i] < key[j] })
	}
	k := string(key)
	mk := fmt.Sprintf("%d/%s", h.id, k)
	if res, ok := g.memo[mk]; ok {
		return res, true
	}
	c, ok := g.refs[k]
	if !ok {
		cfg := &sys.Config{Regs: g.set(" " + k)}
		func() {
			defer func() {
				if p := recover(); p != nil && g.bad == "" {
					g.bad = fmt.Sprintf("made one after the other on a fresh codec, [%v] is refused: %v", cfg, p)
				}
			}()
			c = cfg.Apply(sys.Ref())
		}()
		g.refs[k] = c
	}
	if c == nil {
		return sys.Result{}, false
	}
	res := h.op.Run(c, sys.RefDeepCopy, sys.PlainIO{})
	g.memo[mk] = res
	return res, true
}

// step is the sequential registry. States are "." or "S" followed by the
// registrations in the order they took effect.
func (g *registry) step(st interface{}, in interface{}, out interface{}) (bool, interface{}) {
	state := st.(string)
	h := in.(*hop)
	switch h.op.Kind {
	case sys.Seal:
		return h.got.Class == "ok", "S" + state[1:]
	case sys.Register:
		can := state[0] == '.' && g.alone[h.reg] && allowed(g.set(state), h.op.Reg)
		if h.got.Class == "ok" {
			return can, state + string(rune(h.reg))
		}
		if h.got.Class != "panic" {
			return false, state
		}
		return !can || g.exempt(h), state
	}
	w, ok := g.want(state, h)
	return ok && sys.Same(h.got, w, false), state
}

// exempt tells whether a registration may be refused because its type may have
// been met before.
func (g *registry) exempt(h *hop) bool {
	if h.op.Reg.Conc == nil {
		return false
	}
	for _, o := range g.hops {
		if o.call < h.ret && (o.touch == h.op.Reg.Conc.RT || o.parts && h.op.Reg.Conc.RT != uni.Outermost.RT) {
			return true
		}
	}
	return false
}

func (g *registry) do(h *hop, task int) {
	h.task = task
	g.clock++
	h.call = g.clock
	g.hops = append(g.hops, h)
	g.r.Log("call   %v", h.op)
	h.got = call(h.op, g.c, sys.PlainIO{})
	g.r.Log("return %v", h.got)
	g.clock++
	h.ret = g.clock
}

var ifaces = []*uni.IfaceT{uni.IShape, uni.INode, uni.IAny, uni.IExtra, uni.ILonely}
var holders []*uni.Type // struct{ V iface } and struct{ V []iface }
var holderOf []*uni.IfaceT

func init() {
	for _, i := range ifaces {
		for _, t := range []reflect.Type{i.RT, reflect.SliceOf(i.RT)} {
			s := reflect.StructOf([]reflect.StructField{{Name: "V", Type: t}, {Name: "N", Type: reflect.TypeOf(int64(0))}})
			holders = append(holders, &uni.Type{Name: i.Name + "Holder", RT: s, Bin: true, JSON: true})
			holderOf = append(holderOf, i)
		}
	}
}

// ifaceOf is the interface type a holder holds.
func ifaceOf(t *uni.Type) reflect.Type {
	f := t.RT.Field(0).Type
	if f.Kind() == reflect.Slice {
		f = f.Elem()
	}
	return f
}

func registryWorld(r *Run, seal bool) {
	w := r.Work
	g := &registry{r: r, c: sys.New(), refs: map[string]sys.Codec{}, memo: map[string]sys.Result{}}
	// The concrete types and names of this run.
	var concs []*uni.Conc
	pool := append(append([]*uni.Conc{uni.Outermost}, uni.Lates...), uni.Concs[:9]...)
	for _, i := range w.Perm(len(pool))[:2+w.Draw(4)] {
		concs = append(concs, pool[i])
	}
	grp := uni.Clash[w.Draw(len(uni.Clash))]
	// Siblings all implement one interface and share their prefix bytes, so
	// each needs disambiguation bytes once another is there, and not before.
	var sib *uni.IfaceT
	if w.Chance(1, 6) {
		sib = ifaces[w.Draw(3)]
		concs = nil
		for _, i := range w.Perm(len(pool)) {
			c := pool[i]
			if len(concs) < 3 && reflect.PtrTo(c.RT).Implements(sib.RT) && (c.Ptr || c.RT.Implements(sib.RT)) {
				concs = append(concs, c)
			}
		}
	}
	name := func(c *uni.Conc) string {
		if sib != nil && !w.Chance(1, 12) {
			for i := range concs {
				if concs[i] == c {
					return grp[i]
				}
			}
		}
		switch w.Pick(8, 6, 2, 1) {
		case 3:
			return c.Name + sys.Odd[w.Draw(len(sys.Odd))]
		case 0:
			return c.Name
		case 1:
			return grp[w.Draw(3)]
		}
		return concs[w.Draw(len(concs))].Name
	}
	for _, c := range concs {
		g.regs = append(g.regs, sys.Reg{Conc: c, Name: name(c)})
		if w.Chance(1, 3) {
			g.regs = append(g.regs, sys.Reg{Conc: c, Name: name(c)})
		}
	}
	var ifs []*uni.IfaceT
	for _, i := range w.Perm(len(ifaces))[:1+w.Draw(3)] {
		if ifaces[i] != sib {
			ifs = append(ifs, ifaces[i])
		}
	}
	if sib != nil {
		ifs = append(ifs[:w.Draw(2)*len(ifs)], sib)
	}
	for _, i := range ifs {
		n := 1 + b2i(w.Chance(1, 4))
		for j := 0; j < n; j++ {
			var o *sys.IOpts
			if w.Chance(2, 3) {
				o = &sys.IOpts{Always: w.Chance(1, 6)}
				switch w.Draw(3) {
				case 0:
					o.Prio = grp[:]
				case 1:
					o.Prio = grp[:2]
				}
			}
			if sib != nil && !w.Chance(1, 12) {
				o = &sys.IOpts{Prio: grp[:]}
			}
			g.regs = append(g.regs, sys.Reg{Iface: i, Opts: o})
		}
	}
	if w.Chance(1, 4) {
		t := uni.Get([]string{"BadFloat", "BadSig", "BadUnsig"}[w.Draw(3)])
		g.regs = append(g.regs, sys.Reg{Conc: &uni.Conc{Name: t.Name, RT: t.RT, Ptr: w.Chance(1, 2)}, Name: name(concs[0])})
	}
	for _, reg := range g.regs {
		ok := func() (ok bool) {
			defer func() { recover() }()
			reg.Apply(sys.Ref())
			return true
		}()
		g.alone = append(g.alone, ok)
	}
	dyn := r.dynTypes()
	nid := 0
	mk := func(h *hop) *hop { h.id = nid; nid++; return h }
	regHop := func(i int) *hop {
		return mk(&hop{op: &sys.Op{Kind: sys.Register, Reg: g.regs[i]}, reg: i})
	}
	val := func(c *uni.Conc) reflect.Value {
		gen := &uni.Gen{T: w, JSON: true, Size: 6}
		p := reflect.New(c.RT)
		p.Elem().Set(gen.Value(c.RT))
		if c.Ptr {
			return p
		}
		return p.Elem()
	}
	// A value of one concrete type, bare or held by an interface.
	holder := func(c *uni.Conc) (*uni.Type, reflect.Value) {
		var fit []int
		for k := range holders {
			for _, i := range ifs {
				if holderOf[k] == i && reflect.PtrTo(c.RT).Implements(i.RT) && (c.Ptr || c.RT.Implements(i.RT)) {
					fit = append(fit, k)
				}
			}
		}
		if len(fit) == 0 || w.Chance(1, 6) {
			t := &uni.Type{Name: c.Name, RT: c.RT, Bin: true, JSON: true}
			v := reflect.New(c.RT).Elem()
			x := val(c)
			if c.Ptr {
				x = x.Elem()
			}
			v.Set(x)
			return t, v
		}
		t := holders[fit[w.Draw(len(fit))]]
		v := reflect.New(t.RT).Elem()
		x := val(c)
		f := v.Field(0)
		if f.Kind() == reflect.Slice {
			f.Set(reflect.MakeSlice(f.Type(), 1, 1))
			f.Index(0).Set(x)
		} else {
			f.Set(x)
		}
		v.Field(1).SetInt(int64(w.Draw(3)))
		return t, v
	}
	encHop := func() *hop {
		c := concs[w.Draw(len(concs))]
		t, v := holder(c)
		k := []sys.Kind{sys.Bare, sys.JSON, sys.LP}[w.Pick(4, 2, 1)]
		return mk(&hop{op: &sys.Op{Kind: k, Type: t, Val: v, ByPtr: w.Chance(1, 2)}, touch: c.RT, parts: c == uni.Outermost})
	}
	decHop := func() *hop {
		h := encHop()
		// Encoded by a codec that knows the type under one of its names.
		c := h.touch
		cd := sys.Ref()
		for _, i := range ifs {
			var o *sys.IOpts
			if w.Chance(1, 3) {
				o = &sys.IOpts{Always: true}
			}
			sys.Reg{Iface: i, Opts: o}.Apply(cd)
		}
		var names []sys.Reg
		for _, reg := range g.regs {
			if reg.Conc != nil && reg.Conc.RT == c {
				names = append(names, reg)
			}
		}
		names[w.Draw(len(names))].Apply(cd)
		res := h.op.Run(cd, nil, sys.PlainIO{})
		k := sys.DecKind(w, h.op.Kind)
		t := h.op.Type
		h.op = &sys.Op{Kind: k, Type: t, Data: res.Bytes}
		if t.RT != c {
			h.touch = nil
			h.parts = true // it may be an Outer under a name others have too
		}
		return h
	}
	dynHop := func() *hop {
		if len(dyn) == 0 {
			return encHop()
		}
		t := dyn[w.Draw(len(dyn))]
		if w.Chance(1, 2) {
			// A type around it, just as new.
			rt := t.RT
			json := false
			for i := 1 + w.Draw(2); i > 0; i-- {
				switch w.Draw(4) {
				case 0:
					rt, json = reflect.MapOf(reflect.TypeOf(""), rt), true
				case 1:
					rt = reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt}})
				case 2:
					rt = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.SliceOf(rt)}})
				case 3:
					rt = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PtrTo(rt)}})
				}
			}
			t = &uni.Type{Name: rt.String(), RT: rt, Bin: !json, JSON: true}
		}
		gen := &uni.Gen{T: w, JSON: true, Size: 10}
		v := gen.Value(t.RT)
		return mk(&hop{op: &sys.Op{Kind: sys.EncKind(w, t, false), Type: t, Val: v}})
	}
	// A call that fails, in whatever state the registry is.
	badHop := func() *hop {
		if w.Chance(1, 2) {
			t := uni.Bad[w.Draw(len(uni.Bad))]
			if w.Chance(1, 2) {
				Inject(FBadType)
				return mk(&hop{op: &sys.Op{Kind: []sys.Kind{sys.Bare, sys.LP, sys.JSON}[w.Draw(3)], Type: t, Val: reflect.New(t.RT).Elem(), ByPtr: w.Chance(1, 2)}})
			}
			Inject(FBadType)
			return mk(&hop{op: &sys.Op{Kind: []sys.Kind{sys.UBare, sys.UJSON}[w.Draw(2)], Type: t, Data: []byte("1")}})
		}
		t := uni.Get([]string{"Conv", "ConvStr", "Convs"}[w.Draw(3)])
		gen := &uni.Gen{T: w, JSON: true, Size: 10, Modes: "EP", Rate: 1}
		return mk(&hop{op: &sys.Op{Kind: sys.EncKind(w, t, false), Type: t, Val: gen.Value(t.RT)}})
	}
	readHop := func() *hop {
		if sib != nil {
			return encHop()
		}
		switch w.Pick(5, 3, 2, b2i(len(dyn) > 0), 2) {
		case 0:
			return encHop()
		case 1:
			return decHop()
		case 2:
			return mk(&hop{op: &sys.Op{Kind: sys.Print}})
		case 4:
			return badHop()
		}
		return dynHop()
	}
	sealHop := func() *hop { return mk(&hop{op: &sys.Op{Kind: sys.Seal}}) }

	// Some registrations before, one after the other.
	for i := range g.regs {
		if w.Chance(1, 4) {
			g.do(regHop(i), -1)
		}
	}
	if w.Chance(1, 5) {
		g.do(readHop(), -1)
	}
	if w.Chance(1, 10) {
		// Many more, which nobody uses, before or after.
		n := len(g.regs)
		for _, c := range pool {
			used := false
			for _, have := range concs {
				used = used || have == c
			}
			if !used {
				g.regs = append(g.regs, sys.Reg{Conc: c, Name: c.Name})
				g.alone = append(g.alone, true)
			}
		}
		for i := n; i < len(g.regs); i++ {
			if w.Chance(3, 4) {
				g.do(regHop(i), -1)
			}
		}
	}
	nt := 2 + w.Draw(3)
	plan := make([][]*hop, nt)
	for i := range g.regs {
		k := w.Draw(nt)
		plan[k] = append(plan[k], regHop(i))
		if w.Chance(1, 5) {
			k := w.Draw(nt)
			plan[k] = append(plan[k], regHop(i))
		}
	}
	nr := 1 + w.Draw(6)
	for i := 0; i < nr; i++ {
		k := w.Draw(nt)
		at := w.Draw(len(plan[k]) + 1)
		plan[k] = append(plan[k][:at:at], append([]*hop{readHop()}, plan[k][at:]...)...)
	}
	if seal {
		n := 1 + b2i(w.Chance(1, 4))
		for i := 0; i < n; i++ {
			k := w.Draw(nt)
			at := w.Draw(len(plan[k]) + 1)
			ins := []*hop{sealHop()}
			if w.Chance(2, 3) {
				ins = append(ins, mk(&hop{op: &sys.Op{Kind: sys.Print}}))
			}
			for w.Chance(1, 2) {
				ins = append(ins, readHop())
			}
			plan[k] = append(plan[k][:at:at], append(ins, plan[k][at:]...)...)
		}
	}
	for i := range plan {
		if len(plan[i]) > 7 {
			plan[i] = plan[i][:7]
		}
	}
	r.Sim(func(s *simrt.Sim) {
		for i := range plan {
			i := i
			r.Spawn(s, fmt.Sprintf("caller%d", i), 0, func(t *simrt.Task) {
				for _, h := range plan[i] {
					g.do(h, i)
				}
			})
		}
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	// Afterwards, one call after the other.
	after := func(h *hop) { g.do(h, nt) }
	after(mk(&hop{op: &sys.Op{Kind: sys.Print}}))
	for i := 0; i < 6; i++ {
		after(decHop())
	}
	for w.Chance(1, 2) {
		after(badHop())
	}
	if seal || w.Chance(1, 2) {
		for i := range g.regs {
			after(regHop(i))
		}
	} else {
		for i := range g.regs {
			if w.Chance(1, 3) {
				after(regHop(i))
			}
		}
	}
	for i := 0; i < 4; i++ {
		after(decHop())
		h := encHop()
		after(h)
		if h.got.Class == "ok" {
			// What a type is encoded to, under whatever name, is decoded again.
			Checked()
			back := &sys.Op{Kind: sys.DecKind(w, h.op.Kind), Type: h.op.Type, Data: h.got.Bytes}
			dec := call(back, g.c, sys.PlainIO{})
			if dec.Class != "ok" {
				r.Fail("not-decodable", "%v gave %v, which cannot be decoded: %v", h.op, h.got, dec)
				return
			}
			re := call(&sys.Op{Kind: h.op.Kind, Type: h.op.Type, Val: dec.Value.Elem()}, g.c, sys.PlainIO{})
			if re.Class != "ok" || plainOut.Replace(re.Out) != plainOut.Replace(h.got.Out) {
				r.Fail("not-decodable", "%v gave %v, which was decoded to a value that gives %v", h.op, h.got, re)
				return
			}
		}
	}
	if len(dyn) > 0 {
		after(dynHop())
	}
	last := mk(&hop{op: &sys.Op{Kind: sys.Print}})
	after(last)
	if last.got.Class == "ok" {
		Checked()
		var regs []sys.Reg
		for _, h := range g.hops {
			if h.op.Kind == sys.Register && h.got.Class == "ok" {
				regs = append(regs, h.op.Reg)
			}
		}
		if bad := unlisted(last.got.Out, regs); bad != "" {
			r.Fail("not-listed", "%s in the table %q, after these registrations: %v", bad, last.got.Out, regs)
			return
		}
	}
	g.judge()
}

// plainOut makes no difference between empty and missing values in JSON text.
var plainOut = strings.NewReplacer("[]", "null", "{}", "null", `""`, "null")

func (g *registry) judge() {
	r := g.r
	var ops []porcupine.Operation
	for _, h := range g.hops {
		Checked()
		r.Note(h.got.Class)
		r.Note(h.got.Out)
		ops = append(ops, porcupine.Operation{ClientId: h.task + 1, Input: h, Call: h.call, Output: nil, Return: h.ret})
		switch {
		case h.op.Kind == sys.Register && h.got.Class == "panic":
			Inject(FRejectedReg)
		case h.op.Kind == sys.Seal:
			Inject(FSealRace)
		}
	}
	m := porcupine.Model{
		Init: func() interface{} { return "." },
		Step: g.step,
	}
	res := porcupine.CheckOperationsTimeout(m, ops, 20*time.Second)
	switch {
	case g.bad != "":
		r.Fail("refused", "%s", g.bad)
	case res == porcupine.Unknown:
		Unknown++
	case res == porcupine.Illegal:
		s := ""
		for _, h := range g.hops {
			s += fmt.Sprintf("\n  [%d,%d] task %d: %s -> %s", h.call, h.ret, h.task, clip(h.op.String(), 160), clip(h.got.String(), 160))
		}
		r.Fail("not-linearizable", "no order of the calls explains these results:%s", s)
	}
}

func init() {
	world("C03", func(r *Run) { registryWorld(r, false) })
	world("C04", func(r *Run) { registryWorld(r, true) })
}
