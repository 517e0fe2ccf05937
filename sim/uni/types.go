// Package uni is the universe of types and values the simulated callers of
// go-amino use: every kind the library supports, user code with conversion
// methods that fail, stall or call back, and types it must refuse.
package uni

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
)

//---------------------------------------- plain types

type Leaf struct {
	A int64
	S string
	B []byte
}

type Empty struct{}

type Prims struct {
	Bool bool
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	I    int
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	U    uint
	Str  string
	Byt  []byte
	Tim  time.Time
	Arr  [4]byte
}

type Fixed struct {
	A int64    `binary:"fixed64"`
	B uint64   `binary:"fixed64"`
	C int32    `binary:"fixed32"`
	D uint32   `binary:"fixed32"`
	L []int64  `binary:"fixed64"`
	M []uint32 `binary:"fixed32"`
	N [2]int64 `binary:"fixed64"`
}

type Floats struct {
	F32 float32    `amino:"unsafe"`
	F64 float64    `amino:"unsafe"`
	L64 []float64  `amino:"unsafe"`
	L32 []float32  `amino:"unsafe"`
	A   [2]float32 `amino:"unsafe"`
}

type Lists struct {
	I64 []int64
	I8  []int8
	U   []uint
	Bo  []bool
	Str []string
	Byt [][]byte
	Tim []time.Time
	Lea []Leaf
	PLe []*Leaf
	PI  []*int64
	PS  []*string
	Emp []Empty
}

type Arrays struct {
	B  [8]byte
	I  [3]int32
	S  [2]string
	L  [2]Leaf
	P  [2]*Leaf
	T  [2]time.Time
	BB [2][4]byte
}

type Ptrs struct {
	I   *int64
	S   *string
	B   *bool
	U8  *uint8
	L   *Leaf
	T   *time.Time
	By  *[]byte
	A   *[4]byte
	PP  **Leaf
	Emp *Empty
}

type Tree struct {
	Val  int64
	Kids []*Tree
	Next *Tree
	Any  []Leaf
}

// Rope holds itself in an array.
type Rope struct {
	N   int64
	Sub [2]*Rope
}

// Chain holds itself by its representation.
type Chain struct {
	V    int64
	Next *Chain
}

type ChainRepr struct {
	V    int64
	Next *Chain
}

func (c Chain) MarshalAmino() (ChainRepr, error)  { return ChainRepr(c), nil }
func (c *Chain) UnmarshalAmino(r ChainRepr) error { *c = Chain(r); return nil }

type MutA struct {
	N int32
	B *MutB
}

type MutB struct {
	S  string
	As []MutA
}

type TimeBox struct {
	T time.Time
	N int64
	P *time.Time
}

type Times struct {
	A TimeBox
	B *TimeBox
	C []TimeBox
	D [2]TimeBox
	E struct{ I TimeBox }
	F []*TimeBox
	G [2]time.Time
	H []*time.Time
	I time.Time
}

type Base struct {
	ID  uint64
	Tag string
}

type Embedded struct {
	Base
	Extra []byte
	*Leaf
}

type Tagged struct {
	Name  string  `json:"name"`
	Count int64   `json:"count,omitempty"`
	Skip  int32   `json:"-"`
	List  []Leaf  `json:"list,omitempty"`
	Ptr   *Leaf   `json:"ptr,omitempty"`
	WE    []Leaf  `json:"we" amino:"write_empty"`
	WS    string  `amino:"write_empty"`
	EE    []*Leaf `json:"ee" amino:"empty_elements"`
	hid   int
}

// TagOpts has the rarer forms of tags.
type TagOpts struct {
	A int64  `json:",omitempty"`
	B int32  `json:"b,string"`
	C string `json:",string"`
	D *Leaf  `json:"d,"`
	E bool   `json:"e,string,omitempty"`
	F []byte `json:"f f,omitempty" amino:"write_empty"`
}

// Two types of one name.
func item1() interface{} {
	type Item struct {
		A int64
		S string
	}
	return (*Item)(nil)
}

func item2() interface{} {
	type Item struct {
		S string
		L []int64
		A *int64
		B bool
	}
	return (*Item)(nil)
}

var (
	rtItem1 = rt(item1())
	rtItem2 = rt(item2())
	rtItems = reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: rtItem2},
		{Name: "B", Type: reflect.PtrTo(rtItem1)},
		{Name: "C", Type: reflect.SliceOf(rtItem2)},
		{Name: "D", Type: reflect.SliceOf(reflect.PtrTo(rtItem1))},
		{Name: "E", Type: reflect.ArrayOf(2, rtItem1)},
	})
)

type Deep struct {
	P Prims
	L Lists
	A Arrays
	Q *Ptrs
	F Fixed
	T *Tree
}

type Big struct {
	A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q int64
	S                                                 string
}

type Key string

type Maps struct {
	M map[string]int64
	N map[Key]string
	O map[string]*Leaf
	P map[string][]string
	Q string
}

type MapMaps map[string]map[string]string

// Wide combines containers.
type Wide struct {
	A [][]string
	B []map[string]int64
	C map[string][]*Leaf
	D map[string]Leaf
	E *map[string]int64
	F *[]*Leaf
	G [2]*[]byte
	H map[string]map[string]*Tree
	I [][][]byte
	J map[string][2]*Leaf
	K [2][2][]int64
	L ***int64
}

// WideIf holds interfaces in containers.
type WideIf struct {
	A map[string]Shape
	B [][]Shape
	C map[string][]Node
	D *[]Shape
	E [2][]Shape
	F map[string]Holder
}

// IfPtrs holds pointers to interfaces, which only DeepCopy supports.
type IfPtrs struct {
	G *Shape
	H []*Shape
	I **Shape
	J map[string]*Any
}

type NamedInt int64
type NamedStr string
type NamedByte byte
type NamedBytes []byte
type ByteList []NamedByte
type Leaves []Leaf
type PLeaves []*Leaf
type Ints []int64
type Hash [32]byte
type Pairs [2]Leaf

type Named struct {
	I  NamedInt
	S  NamedStr
	B  NamedBytes
	L  Leaves
	N  Ints
	H  Hash
	BL ByteList
	LS []NamedStr
}

// Hashes holds longer byte arrays in every position.
type Hashes struct {
	A [20]byte
	B [30]byte
	L [][30]byte
	P *[33]byte
	N [36]NamedByte
	H Hash
	Q [2][24]byte
	S []Hash
}

//---------------------------------------- interfaces and their implementers

type Shape interface{ IsShape() }
type Node interface{ IsNode() }
type Any interface{}
type Lonely interface{ IsLonely() } // nothing implements it
type Unreg interface{ IsShape() }   // never registered

type Extra interface{ IsShape() } // registered late, if at all

type Circle struct {
	R int64
	N string
}
type Square struct {
	Side uint32
	Data []byte
	Leaf *Leaf
}
type Dot struct{}
type Digest [32]byte
type Blob []byte
type Label string
type Nums []int64
type Count int64
type LeafList []Leaf
type Group struct {
	Name   string
	Shapes []Shape
	Inner  Node
	One    Shape
}
type Late1 struct{ X int64 }
type Late2 struct{ Y string }
type Late3 struct{ Z []byte }
type Late4 struct{ W *Leaf }

// Outer has parts that may be registered themselves.
type Outer struct {
	A Late1
	B []Late2
	N int64
}

func (Circle) IsShape()   {}
func (*Square) IsShape()  {}
func (Dot) IsShape()      {}
func (Digest) IsShape()   {}
func (Blob) IsShape()     {}
func (Label) IsShape()    {}
func (Nums) IsShape()     {}
func (Count) IsShape()    {}
func (LeafList) IsShape() {}
func (*Group) IsShape()   {}
func (*Group) IsNode()    {}
func (Circle) IsNode()    {}
func (Dot) IsNode()       {}
func (Late1) IsShape()    {}
func (Outer) IsShape()    {}
func (Late2) IsShape()    {}
func (*Late3) IsShape()   {}
func (*Late4) IsShape()   {}
func (Late1) IsNode()     {}
func (Outer) IsNode()     {}
func (Late2) IsNode()     {}

// Conv is a registered type with conversion methods.
func (*Conv) IsShape() {}

type Holder struct {
	S Shape
	N int64
}

type Ifaces struct {
	S  Shape
	N  Node
	A  Any
	L  []Shape
	Ar [2]Shape
	LN []Node
	T  string
}

type BadIface struct {
	X int64
	U Unreg
}

//---------------------------------------- user code

// Hook is run by the user code of values whose text contains a mode letter
// followed by '!'.  It may stall, call the library, or do nothing.
var Hook func(mode byte)

// ErrUser is what failing user code returns.
var ErrUser = errors.New("user code failed")

// UserPanic is what panicking user code panics with.
const UserPanic = "user code panicked"

func user(s string) error {
	i := strings.IndexByte(s, '!')
	if i < 1 {
		return nil
	}
	switch c := s[i-1]; c {
	case 'E':
		return ErrUser
	case 'P':
		panic(UserPanic)
	default:
		if Hook != nil {
			Hook(c)
		}
	}
	return nil
}

// Conv is converted through a struct. Marshalling fails, panics, stalls or
// re-enters according to Text; unmarshalling according to the second part of it.
type Conv struct {
	Text string
	N    int64
	L    []int64
	P    *Leaf
}

type ConvRepr struct {
	T string
	N int64
	L []int64
	P *Leaf
}

func split(s string) (enc, dec string) {
	i := strings.IndexByte(s, '|')
	if i < 0 {
		return s, ""
	}
	return s[:i], s[i+1:]
}

func (c Conv) MarshalAmino() (ConvRepr, error) {
	e, _ := split(c.Text)
	if err := user(e); err != nil {
		return ConvRepr{}, err
	}
	return ConvRepr{c.Text, c.N, c.L, c.P}, nil
}

func (c *Conv) UnmarshalAmino(r ConvRepr) error {
	_, d := split(r.T)
	if err := user(d); err != nil {
		return err
	}
	*c = Conv{r.T, r.N, r.L, r.P}
	return nil
}

// ConvStr is converted through a string of another type.
type ConvStr string

func (c ConvStr) MarshalAmino() (string, error) {
	e, _ := split(string(c))
	if err := user(e); err != nil {
		return "", err
	}
	return "<" + string(c), nil
}

func (c *ConvStr) UnmarshalAmino(s string) error {
	if !strings.HasPrefix(s, "<") {
		if s != "" {
			return errors.New("not a ConvStr")
		}
	} else {
		s = s[1:]
	}
	_, d := split(s)
	if err := user(d); err != nil {
		return err
	}
	*c = ConvStr(s)
	return nil
}

// ConvBytes shares its memory with its representation.
type ConvBytes []byte

func (c ConvBytes) MarshalAmino() ([]byte, error)  { return []byte(c), nil }
func (c *ConvBytes) UnmarshalAmino(b []byte) error { *c = b; return nil }

// ConvArr shares its memory with its representation, an array.
type ConvArr struct {
	A, B []byte
	N    int64
}

func (c ConvArr) MarshalAmino() ([3][]byte, error) {
	var n []byte
	if c.N != 0 {
		n = []byte(strconv.FormatInt(c.N, 10))
	}
	return [3][]byte{c.A, c.B, n}, nil
}

func (c *ConvArr) UnmarshalAmino(r [3][]byte) (err error) {
	*c = ConvArr{A: r[0], B: r[1]}
	if len(r[2]) > 0 {
		c.N, err = strconv.ParseInt(string(r[2]), 10, 64)
	}
	return err
}

// ConvIf is converted through an interface.
type ConvIf struct {
	S Shape
}

func (c ConvIf) MarshalAmino() (Shape, error)  { return c.S, nil }
func (c *ConvIf) UnmarshalAmino(s Shape) error { c.S = s; return nil }

// ConvIfs holds them in every position.
type ConvIfs struct {
	A ConvIf
	L []ConvIf
	P *ConvIf
	N int64
}

// Wrap is converted through a struct that itself holds interfaces and converted
// types, which may fail.
type Wrap struct {
	S Shape
	C []Conv
	T string
}

type WrapRepr struct {
	S Shape
	C []Conv
	T string
}

func (w Wrap) MarshalAmino() (WrapRepr, error)  { return WrapRepr(w), nil }
func (w *Wrap) UnmarshalAmino(r WrapRepr) error { *w = Wrap(r); return nil }

// Wraps holds them in every position.
type Wraps struct {
	W Wrap
	L []Wrap
	P *Wrap
	A [2]Wrap
	N int64
}

// Priv has unexported state only, reachable through its representation.
type Priv struct {
	n int64
	l []string
}

type PrivRepr struct {
	N int64
	L []string
}

func (p Priv) MarshalAmino() (PrivRepr, error)  { return PrivRepr{p.n, p.l}, nil }
func (p *Priv) UnmarshalAmino(r PrivRepr) error { p.n, p.l = r.N, r.L; return nil }

// Copier has its own DeepCopy.
type Copier struct {
	S string
	B []byte
}

func (c Copier) DeepCopy() Copier {
	if err := user(c.S); err != nil {
		panic(UserPanic)
	}
	if c.B == nil {
		return c
	}
	return Copier{c.S, append([]byte{}, c.B...)}
}

// PCopier has its own DeepCopy on the pointer.
type PCopier struct {
	S string
	B []byte
	N *PCopier
}

func (c *PCopier) DeepCopy() *PCopier {
	d := &PCopier{S: c.S}
	if c.B != nil {
		d.B = append([]byte{}, c.B...)
	}
	if c.N != nil {
		d.N = c.N.DeepCopy()
	}
	return d
}

// CopyMix has, at every position, types with their own ways of being copied.
type CopyMix struct {
	P  *PCopier
	V  PCopier
	L  []*PCopier
	LV []PCopier
	M  map[string]PCopier
	PM map[string]*PCopier
	A  Any
	LA []Any
	MA map[string]Any
	C  Copier
	PC *Copier
	LC []Copier
	MC map[string]Copier
	AC [2]Copier
	CB []ConvBytes
	MB map[string]ConvBytes
	PB **ConvBytes
	MP map[string]*Priv
	X  [2][]map[string][]byte
}

// JM marshals itself to JSON.
type JM struct {
	Text string
	N    int32
}

func (j JM) MarshalJSON() ([]byte, error) {
	e, _ := split(j.Text)
	if err := user(e); err != nil {
		return nil, err
	}
	return json.Marshal(fmt.Sprintf("%d:%s", j.N, j.Text))
}

func (j *JM) UnmarshalJSON(bz []byte) error {
	var s string
	if err := json.Unmarshal(bz, &s); err != nil {
		return err
	}
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return errors.New("not a JM")
	}
	_, d := split(s[i+1:])
	if err := user(d); err != nil {
		return err
	}
	var n int32
	if _, err := fmt.Sscanf(s[:i], "%d", &n); err != nil {
		return errors.New("not a JM number")
	}
	j.N, j.Text = n, s[i+1:]
	return nil
}

// Raw is JSON text, and handed out as it is.
type Raw []byte

func (r Raw) MarshalJSON() ([]byte, error) {
	if r == nil {
		return []byte("null"), nil
	}
	if !json.Valid(r) {
		return nil, ErrUser
	}
	return r, nil
}

func (r *Raw) UnmarshalJSON(bz []byte) error {
	if !json.Valid(bz) {
		return ErrUser
	}
	*r = nil
	if s := strings.TrimSpace(string(bz)); s != "null" {
		*r = Raw(s)
	}
	return nil
}

type Convs struct {
	C  Conv
	P  *Conv
	L  []Conv
	S  ConvStr
	LS []ConvStr
	B  ConvBytes
	V  Priv
	PV *Priv
	LV []Priv
	CA ConvArr
	PA *ConvArr
	LA []ConvArr
	D  Copier
	J  JM
	LJ []JM
	PJ *JM
	R  Raw
	LR []Raw
}

//---------------------------------------- unsupported types

type BadChan struct {
	A int64
	C chan int
}
type BadFunc struct {
	F func()
}
type BadFloat struct {
	A Leaf
	F float64
}
type BadElem struct {
	L []float32
}
type BadDeep struct {
	A []Leaf
	B *BadFloat
}
type BadComplex struct {
	X int64
	C complex128
}
type BadSig struct{ X int64 }

func (BadSig) MarshalAmino() (int64, string) { return 0, "" } // wrong signature

type BadUnsig struct{ X int64 }

func (b *BadUnsig) UnmarshalAmino(a, b2 int64) error { return nil }

type BadHolder struct {
	A int64
	B *BadSig
}

//---------------------------------------- the table

// Type is a type of the universe.
type Type struct {
	Name   string
	RT     reflect.Type
	Bin    bool // supported by the binary codec
	JSON   bool
	Copy   bool // DeepCopy keeps it
	User   bool // may contain user code
	Iface  bool // contains interfaces
	Map    bool // contains maps
	Weight int
}

func rt(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }

// Good are the supported types.
var Good = []*Type{
	{"Leaf", rt((*Leaf)(nil)), true, true, true, false, false, false, 4},
	{"Empty", rt((*Empty)(nil)), true, true, true, false, false, false, 1},
	{"Prims", rt((*Prims)(nil)), true, true, true, false, false, false, 4},
	{"Fixed", rt((*Fixed)(nil)), true, true, true, false, false, false, 2},
	{"Floats", rt((*Floats)(nil)), true, true, true, false, false, false, 2},
	{"Lists", rt((*Lists)(nil)), true, true, true, false, false, false, 6},
	{"Arrays", rt((*Arrays)(nil)), true, true, true, false, false, false, 3},
	{"Ptrs", rt((*Ptrs)(nil)), true, true, true, false, false, false, 4},
	{"Tree", rt((*Tree)(nil)), true, true, true, false, false, false, 4},
	{"Rope", rt((*Rope)(nil)), true, true, true, false, false, false, 2},
	{"Chain", rt((*Chain)(nil)), true, true, true, false, false, false, 2},
	{"MutA", rt((*MutA)(nil)), true, true, true, false, false, false, 2},
	{"Times", rt((*Times)(nil)), true, true, true, false, false, false, 3},
	{"Embedded", rt((*Embedded)(nil)), true, true, true, false, false, false, 2},
	{"Tagged", rt((*Tagged)(nil)), true, true, true, false, false, false, 2},
	{"TagOpts", rt((*TagOpts)(nil)), true, true, true, false, false, false, 2},
	{"Item1", rtItem1, true, true, true, false, false, false, 2},
	{"Item2", rtItem2, true, true, true, false, false, false, 2},
	{"Items", rtItems, true, true, true, false, false, false, 2},
	{"Deep", rt((*Deep)(nil)), true, true, true, false, false, false, 2},
	{"Big", rt((*Big)(nil)), true, true, true, false, false, false, 1},
	{"Named", rt((*Named)(nil)), true, true, true, false, false, false, 3},
	{"Hashes", rt((*Hashes)(nil)), true, true, true, false, false, false, 2},
	{"Holder", rt((*Holder)(nil)), true, true, true, true, true, false, 4},
	{"Ifaces", rt((*Ifaces)(nil)), true, true, true, true, true, false, 6},
	{"Group", rt((*Group)(nil)), true, true, true, true, true, false, 3},
	{"Circle", rt((*Circle)(nil)), true, true, true, false, false, false, 2},
	{"Square", rt((*Square)(nil)), true, true, true, false, false, false, 2},
	{"Digest", rt((*Digest)(nil)), true, true, true, false, false, false, 1},
	{"Blob", rt((*Blob)(nil)), true, true, true, false, false, false, 1},
	{"Label", rt((*Label)(nil)), true, true, true, false, false, false, 1},
	{"Nums", rt((*Nums)(nil)), true, true, true, false, false, false, 1},
	{"Count", rt((*Count)(nil)), true, true, true, false, false, false, 1},
	{"LeafList", rt((*LeafList)(nil)), true, true, true, false, false, false, 1},
	{"Shape", rt((*Shape)(nil)), true, true, true, true, true, false, 3},
	{"Convs", rt((*Convs)(nil)), true, true, true, true, false, false, 3},
	{"Conv", rt((*Conv)(nil)), true, true, true, true, false, false, 2},
	{"ConvStr", rt((*ConvStr)(nil)), true, true, true, true, false, false, 1},
	{"ConvArr", rt((*ConvArr)(nil)), true, true, true, false, false, false, 1},
	{"ConvIf", rt((*ConvIf)(nil)), true, true, true, true, true, false, 1},
	{"ConvIfs", rt((*ConvIfs)(nil)), true, true, true, true, true, false, 2},
	{"Priv", rt((*Priv)(nil)), true, true, true, false, false, false, 1},
	{"Wrap", rt((*Wrap)(nil)), true, true, true, true, true, false, 2},
	{"Wraps", rt((*Wraps)(nil)), true, true, true, true, true, false, 2},
	{"JM", rt((*JM)(nil)), true, true, true, true, false, false, 1},
	{"Raw", rt((*Raw)(nil)), true, true, true, true, false, false, 1},
	{"Maps", rt((*Maps)(nil)), false, true, true, false, false, true, 2},
	{"MapMaps", rt((*MapMaps)(nil)), false, true, true, false, false, true, 1},
	{"Wide", rt((*Wide)(nil)), false, true, true, false, false, true, 2},
	{"WideIf", rt((*WideIf)(nil)), false, true, true, true, true, true, 1},
	{"IfPtrs", rt((*IfPtrs)(nil)), false, false, true, true, true, true, 1},
	{"CopyMix", rt((*CopyMix)(nil)), false, false, true, true, true, true, 2},
	{"int64", rt((*int64)(nil)), true, true, true, false, false, false, 1},
	{"int8", rt((*int8)(nil)), true, true, true, false, false, false, 1},
	{"uint32", rt((*uint32)(nil)), true, true, true, false, false, false, 1},
	{"bool", rt((*bool)(nil)), true, true, true, false, false, false, 1},
	{"string", rt((*string)(nil)), true, true, true, false, false, false, 1},
	{"[]byte", rt((*[]byte)(nil)), true, true, true, false, false, false, 1},
	{"time.Time", rt((*time.Time)(nil)), true, true, true, false, false, false, 1},
	{"[]int64", rt((*[]int64)(nil)), true, true, true, false, false, false, 1},
	{"[]string", rt((*[]string)(nil)), true, true, true, false, false, false, 1},
	{"Leaves", rt((*Leaves)(nil)), true, true, true, false, false, false, 1},
	{"Hash", rt((*Hash)(nil)), true, true, true, false, false, false, 1},
	{"NamedInt", rt((*NamedInt)(nil)), true, true, true, false, false, false, 1},
}

// Bad are types the library must refuse, always the same way.
var Bad = []*Type{
	{Name: "BadChan", RT: rt((*BadChan)(nil))},
	{Name: "BadFunc", RT: rt((*BadFunc)(nil))},
	{Name: "BadFloat", RT: rt((*BadFloat)(nil))},
	{Name: "BadDeep", RT: rt((*BadDeep)(nil))},
	{Name: "BadComplex", RT: rt((*BadComplex)(nil))},
	{Name: "BadSig", RT: rt((*BadSig)(nil))},
	{Name: "BadUnsig", RT: rt((*BadUnsig)(nil))},
	{Name: "BadHolder", RT: rt((*BadHolder)(nil))},
	{Name: "BadIface", RT: rt((*BadIface)(nil))},
	{Name: "BadElem", RT: rt((*BadElem)(nil))},
	{Name: "chan", RT: rt((*chan int)(nil))},
	{Name: "func", RT: rt((*func())(nil))},
	{Name: "float64", RT: rt((*float64)(nil))},
}

var byName = map[string]*Type{}

func init() {
	for _, l := range [][]*Type{Good, Bad} {
		for _, t := range l {
			byName[t.Name] = t
		}
	}
}

// Get returns a type by name.
func Get(name string) *Type {
	t := byName[name]
	if t == nil {
		panic("no type " + name)
	}
	return t
}
