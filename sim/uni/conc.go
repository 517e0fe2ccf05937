package uni

import "reflect"

// Conc is a concrete type that can be registered.
type Conc struct {
	Name string
	RT   reflect.Type
	Ptr  bool // registered as a pointer
}

// Proto is what is passed to RegisterConcrete.
func (c *Conc) Proto() interface{} {
	if c.Ptr {
		return reflect.New(c.RT).Interface()
	}
	return reflect.Zero(c.RT).Interface()
}

func conc(name string, p interface{}, ptr bool) *Conc { return &Conc{name, rt(p), ptr} }

// Names whose prefix bytes are the same, in groups of three (found by search).
var Clash = [][3]string{
	{"sim/n229919", "sim/n454909", "sim/n10829077"},
	{"sim/n4776762", "sim/n12072733", "sim/n12378725"},
	{"sim/n2348207", "sim/n5811711", "sim/n11893327"},
	{"sim/n1687386", "sim/n5882758", "sim/n13758513"},
	{"sim/n49440", "sim/n3188274", "sim/n3863338"},
	{"sim/n91949", "sim/n6321770", "sim/n11043801"},
}

// Concs are the concrete types registered at start-up.  The hashes of some of
// their names have zero bytes where prefix bytes are taken from.
var Concs = []*Conc{
	conc("sim/Circle", (*Circle)(nil), false),
	conc("sim/Square", (*Square)(nil), true),
	conc("sim/z8463", (*Dot)(nil), false),
	conc("sim/z25171", (*Digest)(nil), false),
	conc("sim/Blob", (*Blob)(nil), false),
	conc("sim/z8740", (*Label)(nil), false),
	conc("sim/Nums", (*Nums)(nil), false),
	conc("sim/Count", (*Count)(nil), false),
	conc("sim/LeafList", (*LeafList)(nil), false),
	conc("sim/Group", (*Group)(nil), true),
	conc("sim/Conv", (*Conv)(nil), true),
}

// Lates are registered later, if at all.
var Lates = []*Conc{
	conc("sim/Late1", (*Late1)(nil), false),
	conc("sim/Late2", (*Late2)(nil), false),
	conc("sim/Late3", (*Late3)(nil), true),
	conc("sim/Late4", (*Late4)(nil), true),
}

// Outermost is registered in some worlds only.
var Outermost = conc("sim/Outer", (*Outer)(nil), false)

// IfaceT is an interface type that can be registered.
type IfaceT struct {
	Name string
	RT   reflect.Type
}

func (i *IfaceT) Proto() interface{} { return reflect.Zero(reflect.PtrTo(i.RT)).Interface() }

var (
	IShape  = &IfaceT{"Shape", rt((*Shape)(nil))}
	INode   = &IfaceT{"Node", rt((*Node)(nil))}
	IAny    = &IfaceT{"Any", rt((*Any)(nil))}
	IExtra  = &IfaceT{"Extra", rt((*Extra)(nil))}
	ILonely = &IfaceT{"Lonely", rt((*Lonely)(nil))}
)

// Anys are further types an empty interface may hold, for copying.
var Anys = []*Conc{
	conc("", (*Copier)(nil), false),
	conc("", (*Copier)(nil), true),
	conc("", (*PCopier)(nil), false),
	conc("", (*PCopier)(nil), true),
	conc("", (*MapMaps)(nil), false),
	conc("", (*Maps)(nil), true),
	conc("", (*Ints)(nil), false),
	conc("", (*Ints)(nil), true),
	conc("", (*Priv)(nil), false),
	conc("", (*Priv)(nil), true),
	conc("", (*ConvBytes)(nil), false),
	conc("", (*ConvBytes)(nil), true),
	conc("", (*Tree)(nil), true),
	conc("", (*Wide)(nil), false),
	conc("", (*Hash)(nil), false),
	conc("", (*[]byte)(nil), false),
	conc("", (*[]Any)(nil), false),
	conc("", (*map[string]Any)(nil), false),
	conc("", (**Leaf)(nil), false),
	conc("", (*string)(nil), false),
	conc("", (*int64)(nil), true),
}
