package sys

import (
	"fmt"
	"strings"

	"amsim/simrt"
	"amsim/uni"
)

// Reg is a registration.
type Reg struct {
	Iface *uni.IfaceT
	Opts  *IOpts
	Conc  *uni.Conc
	Name  string
}

func (r Reg) String() string {
	if r.Iface != nil {
		s := "RegisterInterface(" + r.Iface.Name
		if r.Opts != nil {
			s += fmt.Sprintf(" priority=%v always=%v", r.Opts.Prio, r.Opts.Always)
		}
		return s + ")"
	}
	p := ""
	if r.Conc.Ptr {
		p = "*"
	}
	return fmt.Sprintf("RegisterConcrete(%s%s, %q)", p, r.Conc.RT.Name(), r.Name)
}

// Apply performs the registration; it panics if the codec refuses.
func (r Reg) Apply(c Codec) {
	if r.Iface != nil {
		c.RegIface(r.Iface.Proto(), r.Opts)
		return
	}
	c.RegConc(r.Conc.Proto(), r.Name)
}

// Config is a set of registrations and the order they are made in.
type Config struct {
	Regs []Reg
}

func (c *Config) String() string {
	var s []string
	for _, r := range c.Regs {
		s = append(s, r.String())
	}
	return strings.Join(s, "; ")
}

// Apply makes all registrations.
func (c *Config) Apply(cd Codec) Codec {
	for _, r := range c.Regs {
		r.Apply(cd)
	}
	return cd
}

// Shuffle returns the same registrations in another order.
func (c *Config) Shuffle(t *simrt.Tape) *Config {
	n := &Config{}
	for _, i := range t.Perm(len(c.Regs)) {
		n.Regs = append(n.Regs, c.Regs[i])
	}
	return n
}

// Concs lists what is registered.
func (c *Config) Concs() []*uni.Conc {
	var out []*uni.Conc
	for _, r := range c.Regs {
		if r.Conc != nil {
			out = append(out, r.Conc)
		}
	}
	return out
}

// NewConfig picks registrations: always the interfaces the universe's types
// hold, most concrete types, sometimes under clashing names.
func NewConfig(t *simrt.Tape) *Config { return newConfig(t, true) }

// Odd are things a name may end with that make it unlike an identifier.
var Odd = []string{`"`, `\`, "\n", "é", "<&>", "%s", " ", `","value":null,"x":"`, "\u2028", `\u0041`, "\x00"}

// FullConfig registers every concrete type.
func FullConfig(t *simrt.Tape) *Config { return newConfig(t, false) }

func newConfig(t *simrt.Tape, drop bool) *Config {
	c := &Config{}
	names := map[*uni.Conc]string{}
	for _, k := range uni.Concs {
		names[k] = k.Name
	}
	var prio []string
	for t.Chance(1, 8) {
		// A name that is nothing like an identifier.
		k := uni.Concs[t.Draw(len(uni.Concs))]
		names[k] += Odd[t.Draw(len(Odd))]
	}
	if t.Chance(1, 3) {
		// Two or three concrete types with the same prefix bytes.
		g := uni.Clash[t.Draw(len(uni.Clash))]
		p := t.Perm(len(uni.Concs))
		n := 2 + t.Draw(2)
		for i := 0; i < n; i++ {
			names[uni.Concs[p[i]]] = g[i]
		}
		prio = g[:]
	}
	opts := func() *IOpts {
		o := &IOpts{Prio: prio}
		if t.Chance(1, 5) {
			o.Always = true
		}
		if o.Prio == nil && !o.Always && t.Chance(1, 2) {
			return nil
		}
		return o
	}
	for _, i := range []*uni.IfaceT{uni.IShape, uni.INode, uni.IAny} {
		c.Regs = append(c.Regs, Reg{Iface: i, Opts: opts()})
	}
	for _, k := range uni.Concs {
		if drop && t.Chance(1, 10) {
			continue
		}
		c.Regs = append(c.Regs, Reg{Conc: k, Name: names[k]})
	}
	return c.Shuffle(t)
}
