package lab

import (
	"fmt"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// The race world: calls of every kind, registrations included, on shared codecs
// and shared values, under the race detector. Only synchronisation the library
// itself performs orders its memory accesses there: the scheduler's own does
// not count. Results are not compared.
func raceWorld(r *Run) {
	w := r.Work
	m := mix{modes: "YE", rate: 6, bad: 15, corrupt: 12, unreg: 3, print: true, pkg: 8, late: true, reject: b2i(w.Chance(1, 4)), ioFail: 8}
	p := r.planCodec(m, 5, 4, r.dynTypes())
	if w.Chance(1, 2) {
		p.twins(r)
	}
	if w.Chance(1, 3) {
		p.each(func(it *item) {
			if it.op.Kind != sys.Register && !it.faulty && w.Chance(1, 3) {
				call(it.op, p.c, sys.PlainIO{})
			}
		})
	}
	var regs [][]*item
	if p.cfg != nil {
		var all []*item
		for _, l := range uni.Lates {
			if w.Chance(2, 3) {
				all = append(all, &item{op: &sys.Op{Kind: sys.Register, Reg: sys.Reg{Conc: l, Name: l.Name}}, io: sys.PlainIO{}})
			}
		}
		if w.Chance(1, 2) {
			all = append(all, &item{op: &sys.Op{Kind: sys.Register, Reg: sys.Reg{Iface: uni.IExtra}}, io: sys.PlainIO{}})
		}
		if w.Chance(1, 2) {
			all = append(all, &item{op: &sys.Op{Kind: sys.Register, Reg: sys.Reg{Iface: uni.ILonely}}, io: sys.PlainIO{}})
		}
		if w.Chance(1, 3) {
			all = append(all, &item{op: &sys.Op{Kind: sys.Seal}, io: sys.PlainIO{}})
		}
		regs = make([][]*item, 1+w.Draw(3))
		for _, i := range w.Perm(len(all)) {
			k := w.Draw(len(regs))
			regs[k] = append(regs[k], all[i])
			if all[i].op.Kind == sys.Register && w.Chance(1, 3) {
				regs[k] = append(regs[k], p.g.item())
			}
		}
	}
	r.Sim(func(s *simrt.Sim) {
		p.spawn(r, s, 0, nil)
		for i, items := range regs {
			items := items
			r.Spawn(s, fmt.Sprintf("registrar%d", i), 0, func(t *simrt.Task) {
				for _, it := range items {
					r.perform(it, p.c)
				}
			})
		}
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	note := func(it *item) {
		Checked()
		r.Note(it.got.Class)
		if it.got.Class == "panic" && it.op.Kind != sys.Register {
			r.Note(it.got.Err)
		}
	}
	p.each(note)
	for _, items := range regs {
		for _, it := range items {
			note(it)
		}
	}
}

func init() { world("C02", raceWorld) }
