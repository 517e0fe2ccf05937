package lab

import (
	"fmt"
	"reflect"
	"strings"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// The codec world: tasks make calls on shared codecs at the same time. The
// oracle is the same call made alone, on a fresh reference codec with the same
// registrations.

// mix says what goes on in a codec world.
type mix struct {
	modes   string // what user code may do
	rate    int    // 1 in rate texts of user code does it
	bad     int    // 1 in bad operations uses an unsupported type
	corrupt int    // 1 in corrupt decoded inputs is corrupted
	ioFail  int    // 1 in ioFail streams fail
	stall   bool   // readers and writers stall
	again   bool   // readers and writers call back
	print   bool
	reject  int // 1 in reject operations is a registration to be refused
	unreg   int // 1 in unreg values may hold unregistered types
	pkg     int // 1 in pkg runs use the package-level functions
	user    bool
	late    bool // values may hold types registered only during the run
	lateDec int  // 1 in lateDec decoded inputs holds types registered later, if at all
}

// item is one call and what became of it.
type item struct {
	op     *sys.Op
	io     sys.IO
	faulty bool // its I/O fails: it must fail, in which way is not compared
	failAt int  // where
	want   sys.Result
	got    sys.Result
	done   bool
	again  []*item // made from inside this task's user code
	hash   string  // of the input before the call
}

type opgen struct {
	r      *Run
	m      mix
	cfg    *sys.Config
	shared []*sys.Op // values several tasks encode
	datas  []*sys.Op // inputs several tasks decode
	dyn    []*uni.Type
	forbid func(*sys.Op) bool
}

func (g *opgen) gen(json bool) *uni.Gen {
	concs := g.cfg.Concs()
	if g.m.unreg > 0 && g.r.Work.Chance(1, g.m.unreg) {
		concs = uni.Concs
	}
	if g.m.late && g.r.Work.Chance(1, 2) {
		concs = append(append([]*uni.Conc(nil), uni.Lates...), concs...)
	}
	return &uni.Gen{T: g.r.Work, Concs: concs, JSON: json, Modes: g.m.modes, Rate: g.m.rate, Size: []int{20, 6, 60}[g.r.Work.Pick(5, 3, 1)]}
}

func (g *opgen) pickType(copies bool) *uni.Type {
	w := g.r.Work
	if len(g.dyn) > 0 && w.Chance(1, 4) {
		return g.dyn[w.Draw(len(g.dyn))]
	}
	if g.m.user && w.Chance(1, 2) {
		return uni.PickType(w, func(t *uni.Type) bool { return t.User && (t.JSON || copies) })
	}
	return uni.PickType(w, func(t *uni.Type) bool { return t.JSON || copies })
}

// value makes an encode or copy operation.
func (g *opgen) encode(copies bool) *sys.Op {
	w := g.r.Work
	if g.m.bad > 0 && w.Chance(1, g.m.bad) {
		t := uni.Bad[w.Draw(len(uni.Bad))]
		k := []sys.Kind{sys.Bare, sys.LP, sys.LPWriter, sys.JSON, sys.MustBare}[w.Draw(5)]
		Inject(FBadType)
		return &sys.Op{Kind: k, Type: t, Val: reflect.New(t.RT).Elem(), ByPtr: w.Chance(1, 2)}
	}
	t := g.pickType(copies)
	o := &sys.Op{Kind: sys.EncKind(w, t, copies), Type: t}
	o.Val = g.gen(o.Kind.IsJSON()).Value(t.RT)
	o.ByPtr = t.RT.Kind() != reflect.Interface && w.Chance(1, 2)
	return o
}

// decode makes a decode operation, of bytes a reference codec encoded.
func (g *opgen) decode() *sys.Op {
	w := g.r.Work
	var e *sys.Op
	var data []byte
	bad := g.m.bad
	g.m.bad = 0
	for i := 0; ; i++ {
		e = g.encode(false)
		cfg := g.cfg
		if _, both := clashPair(g.cfg); w.Chance(1, 12-7*b2i(both)) {
			if o, c := g.sparse(); o != nil {
				e, cfg = o, c
			}
		} else if g.m.lateDec > 0 && w.Chance(1, g.m.lateDec) {
			e, cfg = g.early(), lateCfgs[w.Draw(2)]
		}
		res := alone(e, cfg)
		if res.Class == "ok" {
			data = res.Bytes
			break
		}
		if i == 5 {
			e = &sys.Op{Kind: sys.Bare, Type: uni.Get("Leaf")}
			break
		}
	}
	g.m.bad = bad
	o := &sys.Op{Kind: sys.DecKind(w, e.Kind), Type: e.Type, Data: data}
	if g.m.bad > 0 && w.Chance(1, 2*g.m.bad) {
		o.Type = uni.Bad[w.Draw(len(uni.Bad))]
		Inject(FBadType)
	}
	if g.m.corrupt > 0 && w.Chance(1, g.m.corrupt) {
		o.Data = Corrupt(w, data, o.Kind.IsJSON())
		if w.Chance(1, 2) && o.Type == e.Type {
			if o.Kind.IsJSON() {
				o.Data = g.forgeJSON(o.Type, g.cfg)
			} else {
				o.Data = g.forge(o.Type, g.cfg)
				if o.Kind == sys.ULP || o.Kind == sys.ULPReader || o.Kind == sys.MustULP {
					o.Data = append(uvarint(uint64(len(o.Data))), o.Data...)
				}
			}
		}
	}
	if o.Kind == sys.ULPReader && w.Chance(1, 2) {
		o.Max = 1 << 20
	}
	return o
}

// lateCfgs know the types that others learn of later; one writes disambiguation
// bytes.
var lateCfgs = func() (cs [2]*sys.Config) {
	for i := range cs {
		c := &sys.Config{}
		for _, f := range []*uni.IfaceT{uni.IShape, uni.INode, uni.IAny} {
			c.Regs = append(c.Regs, sys.Reg{Iface: f, Opts: &sys.IOpts{Always: i == 1}})
		}
		for _, l := range uni.Lates {
			c.Regs = append(c.Regs, sys.Reg{Conc: l, Name: l.Name})
		}
		cs[i] = c
	}
	return
}()

// sparse encodes as a peer that has registered one type only, and no options.
func (g *opgen) sparse() (*sys.Op, *sys.Config) {
	w := g.r.Work
	var cs []sys.Reg
	_, both := clashPair(g.cfg)
	for _, r := range g.cfg.Regs {
		if r.Conc != nil && (!both || strings.HasPrefix(r.Name, "sim/n")) {
			cs = append(cs, r)
		}
	}
	if len(cs) == 0 {
		return nil, nil
	}
	c := cs[w.Draw(len(cs))]
	cfg := &sys.Config{Regs: []sys.Reg{{Iface: uni.IShape}, {Iface: uni.INode}, {Iface: uni.IAny}, c}}
	gen := &uni.Gen{T: w, Concs: []*uni.Conc{c.Conc}, JSON: true}
	t := uni.Get([]string{"Holder", "Ifaces", "Shape"}[w.Draw(3)])
	o := &sys.Op{Kind: sys.EncKind(w, t, false), Type: t}
	o.Val = gen.Value(t.RT)
	return o, cfg
}

// early encodes a value of a type not registered yet, alone or in an interface.
func (g *opgen) early() *sys.Op {
	w := g.r.Work
	gen := &uni.Gen{T: w, Concs: uni.Lates, JSON: true}
	t := uni.Get([]string{"Holder", "Ifaces", "Shape"}[w.Draw(3)])
	o := &sys.Op{Kind: sys.EncKind(w, t, false), Type: t}
	o.Val = gen.Value(t.RT)
	o.ByPtr = t.RT.Kind() != reflect.Interface && w.Chance(1, 2)
	return o
}

// pool fills the shared values and inputs.
func (g *opgen) pool() {
	w := g.r.Work
	n := 1 + w.Draw(3)
	for i := 0; i < n; i++ {
		t := g.pickType(true)
		g.shared = append(g.shared, &sys.Op{Type: t, Val: g.gen(true).Value(t.RT)})
	}
	n = w.Draw(3)
	for i := 0; i < n; i++ {
		g.datas = append(g.datas, g.decode())
	}
}

func (g *opgen) item() *item {
	w := g.r.Work
	it := &item{}
	pl := ioPlan{failAt: -1}
	switch w.Pick(3, 3, 2, 1, g.m.wreject(), b2i(g.m.print)) {
	case 0:
		it.op = g.encode(true)
	case 1:
		it.op = g.decode()
	case 2: // a shared value
		s := g.shared[w.Draw(len(g.shared))]
		it.op = &sys.Op{Kind: sys.EncKind(w, s.Type, true), Type: s.Type, Val: s.Val, ByPtr: s.Type.RT.Kind() != reflect.Interface && w.Chance(1, 2)}
	case 3: // a shared input
		if len(g.datas) == 0 {
			it.op = g.decode()
			break
		}
		c := *g.datas[w.Draw(len(g.datas))]
		it.op = &c
	case 4:
		it.op = g.reject()
	case 5:
		it.op = &sys.Op{Kind: sys.Print}
	}
	switch it.op.Kind {
	case sys.LPWriter, sys.ULPReader, sys.Print:
		pl = g.r.ioPlan(g.m.stall, g.m.again)
		if g.m.ioFail > 0 && w.Chance(1, g.m.ioFail) {
			if it.op.Kind == sys.ULPReader {
				if n := len(it.op.Data); n > 0 {
					pl.failAt = w.Draw(n)
				}
			} else {
				pl.failAt = w.Draw(4)
			}
			pl.panics = w.Chance(1, 3)
			it.faulty = pl.failAt >= 0
			it.failAt = pl.failAt
		}
	}
	it.io = simIO{g.r, pl}
	return it
}

func (m mix) wreject() int {
	if m.reject > 0 {
		return m.reject
	}
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// reject makes a registration that must be refused.
func (g *opgen) reject() *sys.Op {
	w := g.r.Work
	Inject(FRejectedReg)
	cs := g.cfg.Regs
	for {
		r := cs[w.Draw(len(cs))]
		switch w.Draw(4) {
		case 0: // the same again
			return &sys.Op{Kind: sys.Register, Reg: r}
		case 1: // the same type under another name
			if r.Conc == nil {
				continue
			}
			return &sys.Op{Kind: sys.Register, Reg: sys.Reg{Conc: r.Conc, Name: "sim/other"}}
		case 2: // the same name for another type
			if r.Conc == nil {
				continue
			}
			l := uni.Lates[w.Draw(len(uni.Lates))]
			return &sys.Op{Kind: sys.Register, Reg: sys.Reg{Conc: l, Name: r.Name}}
		default: // clashing prefix bytes, or an interface without the priorities needed
			a, b := clashPair(g.cfg)
			if a != "" {
				l := uni.Lates[w.Draw(len(uni.Lates))]
				return &sys.Op{Kind: sys.Register, Reg: sys.Reg{Conc: l, Name: a}}
			}
			if b {
				return &sys.Op{Kind: sys.Register, Reg: sys.Reg{Iface: uni.IExtra}}
			}
			continue
		}
	}
}

// clashPair returns a name whose registration must fail because its prefix
// bytes clash with a registered name and it has no priority; or tells that two
// registered names clash (with priority).
func clashPair(cfg *sys.Config) (free string, both bool) {
	names := map[string]bool{}
	prio := false
	for _, r := range cfg.Regs {
		if r.Conc != nil {
			names[r.Name] = true
		} else if r.Opts != nil && len(r.Opts.Prio) > 0 {
			prio = true
		}
	}
	for _, g := range uni.Clash {
		n := 0
		for _, x := range g {
			if names[x] {
				n++
			}
		}
		if n == 1 && !prio {
			for _, x := range g {
				if !names[x] {
					return x, false
				}
			}
		}
		if n >= 2 {
			return "", true
		}
	}
	return "", false
}

// perform makes the call of an item within a task.
func (r *Run) perform(it *item, c sys.Codec) {
	r.Log("call   %v", it.op)
	it.got = call(it.op, c, it.io)
	it.done = true
	r.Log("return %v", it.got)
}

// codecPlan is a codec with the calls made on it.
type codecPlan struct {
	c     sys.Codec
	cfg   *sys.Config // nil for the package-level functions
	g     *opgen
	tasks [][]*item
}

func (r *Run) newCfg() *sys.Config {
	cfg := sys.NewConfig(r.Work)
	if r.Work.Chance(1, 4) {
		// One name of a clashing group, without priorities.
		for i := range cfg.Regs {
			if cfg.Regs[i].Conc == nil {
				if cfg.Regs[i].Opts != nil && cfg.Regs[i].Opts.Prio != nil {
					return cfg
				}
			}
		}
		k := r.Work.Draw(len(cfg.Regs))
		if cfg.Regs[k].Conc != nil {
			cfg.Regs[k].Name = uni.Clash[r.Work.Draw(len(uni.Clash))][r.Work.Draw(3)]
		}
	}
	return cfg
}

func (r *Run) planCodec(m mix, maxTasks, maxOps int, dyn []*uni.Type) *codecPlan {
	w := r.Work
	p := &codecPlan{}
	if m.pkg > 0 && w.Chance(1, m.pkg) {
		p.c = sys.Pkg()
		m.print = false
		m.reject = 0
		p.g = &opgen{r: r, m: m, cfg: &sys.Config{}, dyn: dyn}
	} else {
		p.cfg = r.newCfg()
		p.c = p.cfg.Apply(sys.New())
		if w.Chance(1, 4) && m.reject == 0 {
			p.c.DoSeal()
		}
		p.g = &opgen{r: r, m: m, cfg: p.cfg, dyn: dyn}
		r.Log("codec with %v", p.cfg)
	}
	p.g.pool()
	n := 2 + w.Draw(maxTasks-1)
	for i := 0; i < n; i++ {
		var items []*item
		k := 1 + w.Draw(maxOps)
		for j := 0; j < k; j++ {
			it := p.g.item()
			if m.again {
				k := w.Draw(3)
				for a := 0; a < k; a++ {
					in := p.g.item()
					it.again = append(it.again, in)
				}
			}
			items = append(items, it)
		}
		p.tasks = append(p.tasks, items)
	}
	return p
}

func (p *codecPlan) each(f func(it *item)) {
	for _, t := range p.tasks {
		for _, it := range t {
			f(it)
			for _, a := range it.again {
				f(a)
			}
		}
	}
}

// twins makes every task begin with the same call.
func (p *codecPlan) twins(r *Run) {
	t := p.tasks[r.Work.Draw(len(p.tasks))]
	it := t[r.Work.Draw(len(t))]
	if it.op.Kind == sys.Register || it.op.Kind == sys.Seal || it.faulty {
		return
	}
	for i, t := range p.tasks {
		p.tasks[i] = append([]*item{{op: it.op, io: it.io}}, t...)
	}
}

func (p *codecPlan) wants(r *Run) {
	p.each(func(it *item) {
		cfg := p.cfg
		it.want = alone(it.op, cfg)
		if it.op.Kind.Decodes() {
			it.hash = string(it.op.Data)
		}
	})
}

// spawn starts the tasks of a plan.
func (p *codecPlan) spawn(r *Run, s *simrt.Sim, group int, done func()) {
	for i, items := range p.tasks {
		items := items
		ctx := &TaskCtx{}
		t := r.Spawn(s, fmt.Sprintf("caller%d.%d", group, i), group, func(t *simrt.Task) {
			for _, it := range items {
				it := it
				k := 0
				ctx.Reenter = func() {
					if k < len(it.again) {
						k++
						r.perform(it.again[k-1], p.c)
					}
				}
				r.perform(it, p.c)
			}
			if done != nil {
				done()
			}
		})
		r.Ctx(t.ID, ctx)
	}
}

// check compares what the calls returned with what they return alone.
func (p *codecPlan) check(r *Run) {
	if r.Failed() {
		return
	}
	p.each(func(it *item) {
		if !it.done {
			return
		}
		r.judge(it, it.got, "concurrently")
	})
}

// judge compares one result.
func (r *Run) judge(it *item, got sys.Result, how string) {
	Checked()
	r.Note(got.Class)
	r.Note(got.Out)
	if it.faulty {
		if it.want.Class == "ok" && got.Class == "ok" && it.op.Kind == sys.ULPReader && it.want.N > int64(it.failAt) {
			r.Fail("fault-hidden", "%v succeeded although its reader failed after %d bytes", it.op, it.failAt)
		}
		if got.Class == "panic" && got.Err != ioPanic && it.want.Class != "panic" {
			r.Fail("wrong-result", "%v, whose I/O fails, %v", it.op, got)
		}
		return
	}
	maps := it.op.Type != nil && it.op.Type.Map
	// Which of several conflicts a registration reports, and which of several
	// bad entries of a map, is unspecified.
	texts := it.op.Kind != sys.Register && !maps
	if maps && got.Class != "ok" && it.want.Class != "ok" {
	} else if !sys.Same(got, it.want, texts) {
		r.Fail("wrong-result", "%v\n made %s: %v\n made alone: %v", it.op, how, got, it.want)
	}
	if it.op.Kind.Decodes() && it.hash != "" && it.hash != string(it.op.Data) {
		r.Fail("input-modified", "%v modified the bytes it decoded", it.op)
	}
}

// after repeats every call on the codec as the run left it.
func (p *codecPlan) after(r *Run) {
	if r.Failed() {
		return
	}
	p.each(func(it *item) {
		if r.Failed() || it.op.Kind == sys.Register {
			return
		}
		c := *it
		c.faulty = false
		got := call(c.op, p.c, sys.PlainIO{})
		r.judge(&c, got, "again after the others")
	})
}

type snap struct {
	v    reflect.Value
	dump string
	what string
}

func (p *codecPlan) snaps() []snap {
	var out []snap
	for _, s := range p.g.shared {
		out = append(out, snap{s.Val, uni.DumpV(s.Val), s.Type.Name})
	}
	return out
}

func (r *Run) checkSnaps(ss []snap, class, how string) {
	for _, s := range ss {
		Checked()
		if d := uni.DumpV(s.v); d != s.dump {
			r.Fail(class, "%s: a %s changed\n from %s\n to %s", how, s.what, clip(s.dump, 1500), clip(d, 1500))
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// dynTypes makes types no codec of this process has met.
func (r *Run) dynTypes() []*uni.Type {
	w := r.Work
	var out []*uni.Type
	n := w.Draw(3)
	for i := 0; i < n; i++ {
		out = append(out, uni.Struct(w, fmt.Sprintf("%s%c", r.Salt(), 'a'+i), 1))
	}
	return out
}

func (r *Run) codecRun(m mix, maxTasks, maxOps int) *codecPlan {
	p := r.planCodec(m, maxTasks, maxOps, r.dynTypes())
	if r.Work.Chance(1, 6) && len(p.tasks) < 10 {
		p.twins(r)
	}
	p.wants(r)
	if r.Work.Chance(1, 3) {
		// A warm codec: some of the calls were made before.
		p.each(func(it *item) {
			if it.op.Kind != sys.Register && !it.faulty && r.Work.Chance(1, 3) {
				got := call(it.op, p.c, sys.PlainIO{})
				r.judge(it, got, "alone")
			}
		})
	}
	ss := p.snaps()
	r.Sim(func(s *simrt.Sim) { p.spawn(r, s, 0, nil) })
	if r.Unsup != "" {
		return p
	}
	p.check(r)
	r.checkSnaps(ss, "value-modified", "encoding or copying a shared value")
	p.after(r)
	return p
}

func init() {
	// C01: any mix of calls, no failures injected beyond malformed inputs.
	world("C01", func(r *Run) {
		r.codecRun(mix{modes: "Y", rate: 2, bad: 12, corrupt: 8, unreg: 6, pkg: 5}, 6, 5)
	})
	// C05: failing calls of every kind next to healthy ones.
	world("C05", failWorld)
	// C06: user code, readers and writers that stall or call back.
	world("C06", func(r *Run) {
		tasks, ops := 5, 4
		if r.Work.Chance(1, 50) {
			r.crowd()
			return
		}
		if r.Work.Chance(1, 15) {
			tasks, ops = 60, 1
		}
		r.codecRun(mix{modes: "SRRSY", rate: 1, bad: 0, stall: true, again: true, print: true, user: true, pkg: 6}, tasks, ops)
	})
	world("C21", multiWorld)
}

// crowd: very many callers are inside user code at once, and others get through.
func (r *Run) crowd() {
	w := r.Work
	p := r.planCodec(mix{unreg: 3, pkg: 6, stall: true}, 3, 2, nil)
	t := uni.Get([]string{"Conv", "JM", "ConvStr", "Convs"}[w.Draw(4)])
	var v reflect.Value
	switch gen := (&uni.Gen{T: w, JSON: true, Modes: "S", Rate: 1}); t.Name {
	case "Conv":
		v = reflect.ValueOf(uni.Conv{Text: "S!|S!", N: 1})
	case "JM":
		v = reflect.ValueOf(uni.JM{Text: "S!|S!", N: 1})
	case "ConvStr":
		v = reflect.ValueOf(uni.ConvStr("S!|S!"))
	default:
		v = gen.Value(t.RT)
	}
	nv := reflect.New(t.RT).Elem()
	nv.Set(v)
	o := &sys.Op{Kind: sys.EncKind(w, t, true), Type: t, Val: nv}
	if w.Chance(1, 2) && o.Kind != sys.Copy {
		if res := alone(o, p.g.cfg); res.Class == "ok" && res.Bytes != nil {
			o = &sys.Op{Kind: sys.DecKind(w, o.Kind), Type: t, Data: res.Bytes}
		}
	}
	slow := w.Chance(1, 3)
	if slow {
		// Not in user code but in readers or writers, with messages of any size.
		t := uni.Get("Blob")
		v := reflect.New(t.RT).Elem()
		v.SetBytes(w.Bytes(1 + int(w.U64()>>uint(48+w.Draw(16)))))
		o = &sys.Op{Kind: sys.LPWriter, Type: t, Val: v}
		switch d := w.Draw(4); {
		case d == 0 && p.cfg != nil:
			o = &sys.Op{Kind: sys.Print}
		case d < 3:
			res := alone(&sys.Op{Kind: sys.LP, Type: t, Val: v}, p.g.cfg)
			o = &sys.Op{Kind: sys.ULPReader, Type: t, Data: res.Bytes}
		}
	}
	for i := 35 + w.Draw(100); i > 0; i-- {
		pl := ioPlan{failAt: -1}
		if slow {
			pl.stall = 1 + w.Draw(2)
			p.tasks = append(p.tasks, []*item{{op: o, io: simIO{r, pl}}})
			continue
		}
		if o.Kind == sys.LPWriter || o.Kind == sys.ULPReader {
			pl = r.ioPlan(true, false)
		}
		p.tasks = append(p.tasks, []*item{{op: o, io: simIO{r, pl}}})
	}
	p.wants(r)
	r.Sim(func(s *simrt.Sim) { p.spawn(r, s, 0, nil) })
	if r.Unsup == "" {
		p.check(r)
	}
}

// failWorld: failed calls leave no damage.
func failWorld(r *Run) {
	w := r.Work
	m := mix{modes: "EPEPY", rate: 2, bad: 4, corrupt: 3, ioFail: 2, unreg: 4, reject: 2, print: true, user: w.Chance(1, 2), pkg: 6, lateDec: 6}
	p := r.codecRun(m, 5, 5)
	if r.Failed() || r.Unsup != "" {
		return
	}
	if w.Chance(1, 6) {
		// Failing again and again uses nothing up.
		var bad []*item
		p.each(func(it *item) {
			if it.want.Class != "ok" && !it.faulty && it.op.Kind != sys.Register {
				bad = append(bad, it)
			}
		})
		for i := 0; i < 3 && len(bad) > 0; i++ {
			it := bad[w.Draw(len(bad))]
			for k := 1 + w.Draw([]int{20, 300}[w.Draw(2)]); k > 0; k-- {
				call(it.op, p.c, sys.PlainIO{})
			}
		}
		p.after(r)
		if r.Failed() {
			return
		}
	}
	if p.cfg == nil {
		return
	}
	// The codec still accepts what a codec without that history accepts.
	ref := p.cfg.Apply(sys.Ref())
	var regs []sys.Reg
	for _, l := range uni.Lates {
		regs = append(regs, sys.Reg{Conc: l, Name: l.Name})
	}
	if a, _ := clashPair(p.cfg); a != "" && w.Chance(1, 2) {
		regs[0].Name = a
	}
	for _, g := range uni.Clash {
		if w.Chance(1, 3) {
			regs[1+w.Draw(3)].Name = g[w.Draw(3)]
		}
	}
	regs = append(regs, sys.Reg{Iface: uni.ILonely}, sys.Reg{Iface: uni.IExtra, Opts: &sys.IOpts{Prio: uni.Clash[w.Draw(len(uni.Clash))][:]}})
	for _, i := range w.Perm(len(regs)) {
		o := &sys.Op{Kind: sys.Register, Reg: regs[i]}
		want := o.Run(ref, nil, nil)
		got := call(o, p.c, sys.PlainIO{})
		r.judge(&item{op: o, want: want}, got, "after failed calls")
	}
	// And uses the new types like one.
	g := &uni.Gen{T: w, Concs: append(append([]*uni.Conc(nil), uni.Lates...), uni.Concs...), JSON: true}
	for i := 0; i < 4 && !r.Failed(); i++ {
		t := uni.PickType(w, func(t *uni.Type) bool { return t.Iface })
		v := g.Value(t.RT)
		for _, k := range []sys.Kind{sys.Bare, sys.JSON, sys.LP} {
			if !t.Bin && !k.IsJSON() {
				continue
			}
			o := &sys.Op{Kind: k, Type: t, Val: v}
			want := o.Run(ref, nil, sys.PlainIO{})
			got := call(o, p.c, sys.PlainIO{})
			r.judge(&item{op: o, want: want}, got, "after failed calls and further registrations")
			if want.Class == "ok" {
				d := &sys.Op{Kind: sys.DecKind(w, k), Type: t, Data: want.Bytes}
				want := d.Run(ref, nil, sys.PlainIO{})
				got := call(d, p.c, sys.PlainIO{})
				r.judge(&item{op: d, want: want}, got, "after failed calls and further registrations")
			}
		}
	}
	o := &sys.Op{Kind: sys.Print}
	want := o.Run(ref, nil, sys.PlainIO{})
	r.judge(&item{op: o, want: want}, call(o, p.c, sys.PlainIO{}), "after failed calls")
}

// multiWorld: several codecs holding overlapping types at the same time.
func multiWorld(r *Run) {
	w := r.Work
	dyn := r.dynTypes()
	for len(dyn) < 2 {
		dyn = append(dyn, uni.Struct(w, fmt.Sprintf("%s%c", r.Salt(), 'p'+len(dyn)), 1))
	}
	// Codecs used by one task each, which also registers: the expectation is the
	// same sequence of calls on a codec of its own.
	type owner struct {
		c     sys.Codec
		ref   sys.Codec
		items []*item
		cfg   *sys.Config
		pkg   bool
	}
	var owners []*owner
	n := 2 + w.Draw(3)
	m := mix{modes: "EPY", rate: 4, bad: 10, corrupt: 8, unreg: 3, reject: 1, print: true, lateDec: 12}
	for i := 0; i < n; i++ {
		o := &owner{}
		if w.Chance(1, 5) {
			o.pkg = true
			o.c, o.ref = sys.Pkg(), sys.RefPkg()
			o.cfg = &sys.Config{}
		} else {
			o.c, o.ref = sys.New(), sys.Ref()
			o.cfg = r.newCfg()
			for j, d := range dyn {
				if w.Chance(2, 3) {
					o.cfg.Regs = append(o.cfg.Regs, sys.Reg{Conc: &uni.Conc{Name: "dyn", RT: d.RT, Ptr: w.Chance(1, 2)}, Name: fmt.Sprintf("sim/dyn%d", w.Draw(4)*2+j)})
				}
			}
			o.cfg = o.cfg.Shuffle(w)
		}
		mm := m
		if o.pkg {
			mm.print, mm.reject = false, 0
		}
		g := &opgen{r: r, m: mm, cfg: o.cfg, dyn: dyn}
		early := w.Chance(1, 4) // some calls before registering
		add := func(k int) {
			for j := 0; j < k; j++ {
				it := g.item()
				if it.op.Kind == sys.Register && o.pkg {
					continue
				}
				it.faulty = false
				it.io = sys.PlainIO{}
				o.items = append(o.items, it)
			}
		}
		// A decodable pool needs a working configuration.
		safe := &sys.Config{Regs: o.cfg.Regs}
		if !r.applies(safe) {
			// Contradictory names drawn: keep those that can be registered.
			safe = r.prune(safe)
			o.cfg = safe
			g.cfg = safe
		}
		g.pool()
		if early {
			add(1 + w.Draw(3))
		}
		for _, reg := range o.cfg.Regs {
			o.items = append(o.items, &item{op: &sys.Op{Kind: sys.Register, Reg: reg}, io: sys.PlainIO{}})
			if early && w.Chance(1, 4) {
				add(1)
			}
		}
		if !o.pkg && w.Chance(1, 3) {
			o.items = append(o.items, &item{op: &sys.Op{Kind: sys.Seal}, io: sys.PlainIO{}})
		}
		add(2 + w.Draw(5))
		for _, it := range o.items {
			it.want = it.op.Run(o.ref, sys.RefDeepCopy, sys.PlainIO{})
		}
		owners = append(owners, o)
		r.Log("codec %d: %v", i, o.cfg)
	}
	r.Sim(func(s *simrt.Sim) {
		for i, o := range owners {
			o := o
			r.Spawn(s, fmt.Sprintf("owner%d", i), 0, func(t *simrt.Task) {
				for _, it := range o.items {
					r.perform(it, o.c)
				}
			})
		}
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	for _, o := range owners {
		for _, it := range o.items {
			r.judge(it, it.got, "while other codecs were in use")
		}
	}
	// And once more, one codec after the other.
	for _, o := range owners {
		for _, it := range o.items {
			if it.op.Kind == sys.Register || it.op.Kind == sys.Seal || r.Failed() {
				continue
			}
			want := it.op.Run(o.ref, sys.RefDeepCopy, sys.PlainIO{})
			r.judge(&item{op: it.op, want: want}, call(it.op, o.c, sys.PlainIO{}), "after other codecs were used")
		}
	}
}

func (r *Run) applies(c *sys.Config) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	c.Apply(sys.Ref())
	return true
}

// prune drops the registrations that fail.
func (r *Run) prune(c *sys.Config) *sys.Config {
	out := &sys.Config{}
	ref := sys.Ref()
	for _, g := range c.Regs {
		func() {
			defer func() { recover() }()
			g.Apply(ref)
			out.Regs = append(out.Regs, g)
		}()
	}
	return out
}
