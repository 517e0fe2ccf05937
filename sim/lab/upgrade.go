package lab

import (
	"fmt"
	"reflect"
	"time"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// The upgrade world (C18): a cluster in which every message type has several
// versions, each appending fields to the one before; nodes are upgraded (and
// sometimes taken back) one after the other while messages travel, wait and
// are stored.

// position of a versioned struct within another.
type position int

const (
	pPlain position = iota // not a versioned struct
	pStruct
	pPtr
	pList
	pPtrList
	pArray
	pAny
	pAnyList
	nPositions
)

type sfield struct {
	name  string
	since int // the version that appended it
	pos   position
	rt    reflect.Type // plain
	tag   string
	in    *schema
}

// schema is a message type through all its versions.
type schema struct {
	id     int
	name   string // the name it is registered under, or ""
	ptr    bool
	fields []*sfield
	types  []reflect.Type
}

const maxVersions = 4

type upgrade struct {
	r    *Run
	vers int
	all  []*schema
	regd []*schema
	cfgs [][]sys.Reg // per version
	know [][]*uni.Conc
}

func (u *upgrade) schema(depth int, reg bool) *schema {
	w := u.r.Work
	s := &schema{id: len(u.all)}
	u.all = append(u.all, s)
	if reg {
		s.name = fmt.Sprintf("sim/up%d", s.id)
		if w.Chance(1, 10) {
			s.name += sys.Odd[w.Draw(len(sys.Odd))]
		}
		s.ptr = w.Chance(1, 2)
	}
	n := w.Draw(4)
	if reg && n == 0 {
		n = 1
	}
	many := w.Chance(1, 8)
	if many {
		n = 11 + w.Draw(6)
	}
	for v := 0; v < u.vers; v++ {
		if v > 0 {
			n = w.Pick(1, 3, 2, 1)
		}
		for i := 0; i < n; i++ {
			f := &sfield{name: "F" + string(rune('A'+len(s.fields)%26)), since: v}
			if len(s.fields) >= 26 {
				f.name += "2"
			}
			if depth < 2 && !many && w.Chance(1, 3) {
				f.pos = position(1 + w.Draw(int(nPositions)-1))
				switch f.pos {
				case pAny, pAnyList:
					// Any registered message type.
				default:
					f.in = u.schema(depth+1, false)
				}
			} else {
				f.rt, f.tag = uni.FieldType(w)
			}
			if len(s.fields) == 0 {
				f.tag = fmt.Sprintf(`json:"f%d" %s`, s.id, f.tag)
			}
			s.fields = append(s.fields, f)
		}
	}
	return s
}

var anyType = uni.IAny.RT

func (s *schema) at(v int) reflect.Type {
	for len(s.types) <= v {
		s.types = append(s.types, nil)
	}
	if s.types[v] != nil {
		return s.types[v]
	}
	var fs []reflect.StructField
	for _, f := range s.fields {
		if f.since > v {
			continue
		}
		fs = append(fs, reflect.StructField{Name: f.name, Type: f.at(v), Tag: reflect.StructTag(f.tag)})
	}
	s.types[v] = reflect.StructOf(fs)
	return s.types[v]
}

func (f *sfield) at(v int) reflect.Type {
	switch f.pos {
	case pStruct:
		return f.in.at(v)
	case pPtr:
		return reflect.PtrTo(f.in.at(v))
	case pList:
		return reflect.SliceOf(f.in.at(v))
	case pPtrList:
		return reflect.SliceOf(reflect.PtrTo(f.in.at(v)))
	case pArray:
		return reflect.ArrayOf(2, f.in.at(v))
	case pAny:
		return anyType
	case pAnyList:
		return reflect.SliceOf(anyType)
	}
	return f.rt
}

// value makes a value of a schema as of version v.
func (u *upgrade) value(s *schema, v, since, depth int, json bool) reflect.Value {
	w := u.r.Work
	out := reflect.New(s.at(v)).Elem()
	for _, f := range s.fields {
		if f.since > v || (w.Chance(1, 5) && !hasTime(f.rt)) {
			continue
		}
		k := since
		if f.since > k {
			k = f.since
		}
		fv := out.FieldByName(f.name)
		n := 2
		switch f.pos {
		case pList, pPtrList, pAnyList:
			n = w.Draw(4)
			if depth == 0 && w.Chance(1, 60) {
				n = 40 + w.Draw(60)
			}
			fv.Set(reflect.MakeSlice(fv.Type(), n, n))
		}
		switch f.pos {
		case pPlain:
			g := &uni.Gen{T: w, Concs: u.know[k], Size: 8, JSON: json}
			g.Fill(fv, f.tag)
		case pStruct:
			fv.Set(u.value(f.in, v, k, depth+1, json))
		case pPtr:
			fv.Set(addrOf(u.value(f.in, v, k, depth+1, json)))
		case pList, pArray:
			for i := 0; i < n; i++ {
				fv.Index(i).Set(u.value(f.in, v, k, depth+1, json))
			}
		case pPtrList:
			for i := 0; i < n; i++ {
				if w.Chance(4, 5) {
					fv.Index(i).Set(addrOf(u.value(f.in, v, k, depth+1, json)))
				}
			}
		case pAny:
			u.any(fv, v, k, depth, json)
		case pAnyList:
			for i := 0; i < n; i++ {
				u.any(fv.Index(i), v, k, depth, json)
			}
		}
	}
	return out
}

func hasTime(rt reflect.Type) bool { return rt == reflect.TypeOf(time.Time{}) }

func addrOf(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func (u *upgrade) any(dst reflect.Value, v, since, depth int, json bool) {
	w := u.r.Work
	if depth > 2 || w.Chance(1, 5) {
		return
	}
	if len(u.regd) > 0 && w.Chance(3, 4) {
		s := u.regd[w.Draw(len(u.regd))]
		x := u.value(s, v, since, depth+1, json)
		if s.ptr || w.Chance(1, 8) {
			x = addrOf(x)
		}
		dst.Set(x)
		return
	}
	g := &uni.Gen{T: w, Concs: u.know[since], Size: 8, JSON: json}
	g.Fill(dst, "")
}

// expect computes what a node of version to must obtain from a value of version
// from.  The fields the sender did not know are taken over from what it did
// obtain, after checking that they have their defaults.
func (u *upgrade) expect(s *schema, src, got reflect.Value, from, to int, bad *string) reflect.Value {
	out := reflect.New(s.at(to)).Elem()
	for _, f := range s.fields {
		if f.since > to {
			continue
		}
		o := out.FieldByName(f.name)
		var g reflect.Value
		if got.IsValid() {
			g = got.FieldByName(f.name)
		}
		if f.since > from {
			if g.IsValid() {
				if !isDefault(g) && *bad == "" {
					*bad = fmt.Sprintf("field %s, which the sender does not know, is %s", f.name, uni.DumpV(g))
				}
				o.Set(g)
			}
			continue
		}
		x := src.FieldByName(f.name)
		switch f.pos {
		case pPlain:
			o.Set(x)
		case pStruct:
			o.Set(u.expect(f.in, x, g, from, to, bad))
		case pPtr:
			if !x.IsNil() {
				o.Set(addrOf(u.expect(f.in, x.Elem(), deref(g), from, to, bad)))
			}
		case pList, pArray, pPtrList, pAnyList:
			if f.pos != pArray {
				if x.IsNil() {
					continue
				}
				o.Set(reflect.MakeSlice(o.Type(), x.Len(), x.Len()))
			}
			for i := 0; i < x.Len(); i++ {
				var gi reflect.Value
				if g.IsValid() && i < g.Len() {
					gi = g.Index(i)
				}
				switch f.pos {
				case pPtrList:
					if e := x.Index(i); e.IsNil() || uni.EmptyEnc(e.Elem()) {
						// Within lists a nil pointer is as good as an empty struct.
						if gi.IsValid() && !gi.IsNil() {
							z := reflect.Zero(e.Type().Elem())
							if !e.IsNil() {
								z = e.Elem()
							}
							o.Index(i).Set(addrOf(u.expect(f.in, z, gi.Elem(), from, to, bad)))
						}
					} else {
						o.Index(i).Set(addrOf(u.expect(f.in, x.Index(i).Elem(), deref(gi), from, to, bad)))
					}
				case pAnyList:
					u.expectAny(o.Index(i), x.Index(i), gi, from, to, bad)
				default:
					o.Index(i).Set(u.expect(f.in, x.Index(i), gi, from, to, bad))
				}
			}
		case pAny:
			u.expectAny(o, x, g, from, to, bad)
		}
	}
	return out
}

func deref(v reflect.Value) reflect.Value {
	if v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		return deref(v.Elem())
	}
	return v
}

func (u *upgrade) expectAny(o, x, g reflect.Value, from, to int, bad *string) {
	if x.IsNil() {
		return
	}
	d := deref(x)
	for _, s := range u.regd {
		if d.Type() == s.at(from) {
			g = deref(g)
			if g.IsValid() && g.Type() != s.at(to) {
				g = reflect.Value{}
			}
			o.Set(u.expect(s, d, g, from, to, bad))
			return
		}
	}
	o.Set(x)
}

// isDefault tells whether a value is what an absent field is.
func isDefault(v reflect.Value) bool {
	if v.IsZero() {
		return true
	}
	switch v.Kind() {
	case reflect.Ptr:
		return isDefault(v.Elem()) && v.Elem().Kind() != reflect.Struct || v.Type().Elem() == reflect.TypeOf(time.Time{}) && isDefault(v.Elem())
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			return t.Unix() == 0 && t.Nanosecond() == 0
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && !isDefault(v.Field(i)) {
				return false
			}
		}
		return v.Type() != reflect.TypeOf(uni.Priv{})
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !isDefault(v.Index(i)) {
				return false
			}
		}
		return true
	}
	return false
}

// letter is a message as it travels and is stored.
type letter struct {
	s    *schema
	v    reflect.Value
	ver  int
	kind sys.Kind
	data []byte
}

type peer struct {
	id    int
	ver   int
	mail  []*letter
	key   byte
	store []*letter // durable
	c     sys.Codec
	life  int
	alone bool // partitioned
}

func upgradeWorld(r *Run) {
	w := r.Work
	u := &upgrade{r: r, vers: 2 + w.Draw(maxVersions-1)}
	for i := w.Draw(3); i > 0; i-- {
		u.regd = append(u.regd, u.schema(1, true))
	}
	var tops []*schema
	for i := 1 + w.Draw(2); i > 0; i-- {
		tops = append(tops, u.schema(0, w.Chance(1, 4)))
	}
	for _, s := range tops {
		if s.name != "" {
			u.regd = append(u.regd, s)
		}
	}
	// Registrations grow with the versions.
	first := make([]int, len(uni.Concs))
	for i := range uni.Concs {
		if w.Chance(1, 3) {
			first[i] = w.Draw(u.vers)
		}
	}
	for v := 0; v < u.vers; v++ {
		var regs []sys.Reg
		var know []*uni.Conc
		for _, i := range []*uni.IfaceT{uni.IShape, uni.INode, uni.IAny} {
			regs = append(regs, sys.Reg{Iface: i})
		}
		for i, c := range uni.Concs {
			if first[i] <= v {
				regs = append(regs, sys.Reg{Conc: c, Name: c.Name})
				know = append(know, c)
			}
		}
		for _, s := range u.regd {
			regs = append(regs, sys.Reg{Conc: &uni.Conc{Name: s.name, RT: s.at(v), Ptr: s.ptr}, Name: s.name})
		}
		u.cfgs = append(u.cfgs, regs)
		u.know = append(u.know, know)
	}
	// Messages of every version.
	json := w.Chance(1, 3)
	pool := make([][]*letter, u.vers)
	for v := range pool {
		ref := (&sys.Config{Regs: u.cfgs[v]}).Apply(sys.Ref())
		for i := 1 + w.Draw(3); i > 0; i-- {
			l := &letter{s: tops[w.Draw(len(tops))], ver: v, kind: sys.LP}
			if json {
				l.kind = sys.JSON
			}
			l.v = u.value(l.s, v, 0, 0, json)
			t := &uni.Type{Name: fmt.Sprintf("message%d.v%d", l.s.id, v), RT: l.s.at(v)}
			res := (&sys.Op{Kind: l.kind, Type: t, Val: l.v}).Run(ref, nil, sys.PlainIO{})
			if res.Class != "ok" {
				r.Log("cannot encode %s: %v", uni.DumpV(l.v), res)
				continue
			}
			if len(res.Bytes) > 1200 && !(i == 1 && len(pool[v]) == 0) {
				continue
			}
			l.data = append([]byte(nil), res.Bytes...)
			r.Extra += 20000 * int64(len(l.data))
			pool[v] = append(pool[v], l)
			r.Log("version %d message of schema %d: %s", v, l.s.id, uni.DumpV(l.v))
		}
	}
	for v := range pool {
		if len(pool[v]) == 0 {
			return
		}
	}
	npeers := 2 + w.Draw(3)
	var peers []*peer
	for i := 0; i < npeers; i++ {
		p := &peer{id: i}
		if w.Chance(1, 4) {
			p.ver = w.Draw(u.vers)
		}
		for k := w.Draw(3); k > 0; k-- {
			l := pool[p.ver][w.Draw(len(pool[p.ver]))]
			p.store = append(p.store, l)
		}
		peers = append(peers, p)
	}
	order := w.Perm(npeers)
	sends := 1 + w.Draw(4)
	back := w.Chance(1, 4)
	cfgOrder := func(v int) *sys.Config { return (&sys.Config{Regs: u.cfgs[v]}).Shuffle(r.Env) }
	lossy := w.Draw(4)
	r.Sim(func(s *simrt.Sim) {
		var start func(p *peer)
		type flight struct {
			due      int64
			from, to *peer
			l        *letter
		}
		var air []flight
		var airKey byte
		over := false
		r.Spawn(s, "network", 100, func(*simrt.Task) {
			for {
				for len(air) == 0 {
					if over {
						return
					}
					simrt.Block(ptr(&airKey), false)
				}
				first := 0
				for i, f := range air {
					if f.due < air[first].due {
						first = i
					}
				}
				if first > 0 {
					Inject(FReorder)
				}
				f := air[first]
				if f.due > s.Now() {
					simrt.Sleep(f.due - s.Now())
					continue
				}
				air = append(air[:first], air[first+1:]...)
				if f.from.alone || f.to.alone {
					Inject(FPartition)
					continue
				}
				f.to.mail = append(f.to.mail, f.l)
				simrt.Wake(ptr(&f.to.key))
			}
		})
		deliver := func(from, to *peer, l *letter) {
			env := r.Env
			if lossy > 0 && env.Chance(1, 8) {
				Inject(FLoss)
				return
			}
			n := 1
			if lossy > 0 && env.Chance(1, 6) {
				Inject(FDup)
				n = 2
			}
			for i := 0; i < n; i++ {
				d := int64(0)
				if env.Chance(1, 2) {
					Inject(FDelay)
					d = 1 + int64(env.Draw(20000))
				}
				air = append(air, flight{s.Now() + 1 + d, from, to, l})
				simrt.Wake(ptr(&airKey))
			}
		}
		start = func(p *peer) {
			p.life++
			who := fmt.Sprintf("node%d.%d(v%d)", p.id, p.life, p.ver)
			c := cfgOrder(p.ver).Apply(sys.New())
			ver := p.ver
			r.Spawn(s, who+".recv", p.id, func(*simrt.Task) {
				// First what was stored by earlier versions.
				for _, l := range append([]*letter(nil), p.store...) {
					u.receive(who+" reading its store", c, l, ver)
				}
				for {
					for len(p.mail) == 0 {
						simrt.Block(ptr(&p.key), false)
						if simrt.Dying() {
							return
						}
					}
					l := p.mail[0]
					p.mail = p.mail[1:]
					if l == nil {
						return
					}
					u.receive(who, c, l, ver)
					p.store = append(p.store, l)
				}
			})
			r.Spawn(s, who+".send", p.id, func(*simrt.Task) {
				for i := 0; i < sends; i++ {
					simrt.Sleep(1 + int64(r.Env.Draw(5000)))
					m := *pool[ver][r.Env.Draw(len(pool[ver]))]
					t := &uni.Type{Name: "message", RT: m.s.at(ver)}
					kind := m.kind
					if kind == sys.LP && r.Env.Chance(1, 3) {
						kind = sys.LPWriter
					}
					e := &sys.Op{Kind: kind, Type: t, Val: m.v, ByPtr: r.Env.Chance(1, 2)}
					res := call(e, c, sys.PlainIO{})
					Checked()
					if res.Class != "ok" || res.Out != string(m.data) {
						r.Fail("send", "%s: %v gives %v instead of %X", who, e, res, m.data)
						return
					}
					m.data = []byte(res.Out)
					for _, q := range peers {
						if q != p {
							deliver(p, q, &m)
						}
					}
				}
			})
		}
		for _, p := range peers {
			start(p)
		}
		// The upgrade.
		r.Spawn(s, "operator", 200, func(*simrt.Task) {
			// Waits some time, or strikes after some steps wherever the others are.
			wait := func(n int) {
				if r.Env.Chance(1, 2) {
					simrt.SleepSteps(1+int64(r.Env.Draw(n)), 1+int64(r.Env.Draw(20000)))
				} else {
					simrt.Sleep(1 + int64(r.Env.Draw(n)))
				}
			}
			for v := 1; v < u.vers; v++ {
				for _, i := range order {
					wait(8000)
					p := peers[i]
					if p.ver >= v {
						continue
					}
					Inject(FUpgrade)
					s.Kill(p.id)
					p.ver = v
					if r.Env.Chance(1, 3) {
						// Down for a while; its mail waits or is lost.
						p.alone = r.Env.Chance(1, 2)
						wait(5000)
						p.alone = false
					}
					start(p)
					if back && r.Env.Chance(1, 4) {
						// Taken back.
						wait(8000)
						Inject(FUpgrade)
						s.Kill(p.id)
						p.ver--
						start(p)
					}
				}
			}
			simrt.Sleep(40000)
			over = true
			simrt.Wake(ptr(&airKey))
			for _, p := range peers {
				p.mail = append(p.mail, nil)
				simrt.Wake(ptr(&p.key))
			}
		})
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	// Finally everything stored is readable at every version.
	for v := 0; v < u.vers; v++ {
		c := cfgOrder(v).Apply(sys.New())
		for _, p := range peers {
			for _, l := range p.store {
				u.receive(fmt.Sprintf("version %d reading the store of node %d", v, p.id), c, l, v)
			}
		}
	}
}

// receive decodes a letter at a node of a version.
func (u *upgrade) receive(who string, c sys.Codec, l *letter, ver int) {
	r := u.r
	if r.Failed() {
		return
	}
	t := &uni.Type{Name: fmt.Sprintf("message%d.v%d", l.s.id, ver), RT: l.s.at(ver)}
	d := &sys.Op{Kind: sys.DecKind(r.Env, l.kind), Type: t, Data: append([]byte(nil), l.data...)}
	got := call(d, c, sys.PlainIO{})
	Checked()
	r.Note(got.Class)
	r.Note(got.Val)
	r.Log("%s receives a version %d message: %v", who, l.ver, got)
	if got.Class != "ok" {
		r.Fail("refused", "%s: %v of a version %d message: %v\n it was %s", who, d, l.ver, got, clip(uni.DumpV(l.v), 1000))
		return
	}
	bad := ""
	want := u.expect(l.s, l.v, got.Value.Elem(), l.ver, ver, &bad)
	if bad != "" {
		r.Fail("not-default", "%s: %v of a version %d message: %s", who, d, l.ver, bad)
		return
	}
	if a, b := uni.CanonV(want), uni.CanonV(got.Value.Elem()); a != b {
		r.Fail("value", "%s: %v of a version %d message\n it was  %s\n wanted  %s\n decoded %s", who, d, l.ver, clip(uni.DumpV(l.v), 1000), clip(a, 1000), clip(b, 1000))
	}
}

func init() { world("C18", upgradeWorld) }
