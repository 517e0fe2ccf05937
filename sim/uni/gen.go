package uni

import (
	"math"
	"reflect"
	"time"
	"unicode/utf8"

	"amsim/simrt"
)

// Gen generates values.
type Gen struct {
	T     *simrt.Tape
	Concs []*Conc // what interfaces may hold
	JSON  bool    // only values JSON can carry
	Modes string  // modes of user code that may be put into texts
	Rate  int     // 1 in Rate texts of user code carry a mode
	Size  int     // rough budget of nodes
	Fixed bool    // no times before 1970 etc. (unused)

	left int
}

var timeType = reflect.TypeOf(time.Time{})

// Value generates a value of the type.
func (g *Gen) Value(rt reflect.Type) reflect.Value {
	if g.Size == 0 {
		g.Size = 40
	}
	g.left = g.Size
	v := reflect.New(rt).Elem()
	g.fill(v, 0, "")
	return v
}

func (g *Gen) small() bool { return g.left <= 0 }

var edgeInts = []int64{0, 1, -1, 2, 127, 128, -128, 255, 256, 300, 16383, 16384, 32767, -32768, 65535, 1 << 20, 1<<31 - 1, -1 << 31, 1 << 31, 1<<32 - 1, 1 << 35, 1<<53 + 1, 1<<63 - 1, -1 << 63, -2}

func (g *Gen) Int(bits int) int64 {
	var x int64
	if g.T.Chance(1, 3) {
		x = edgeInts[g.T.Draw(len(edgeInts))]
	} else {
		x = int64(g.T.Draw(200))
	}
	switch bits {
	case 8:
		return int64(int8(x))
	case 16:
		return int64(int16(x))
	case 32:
		return int64(int32(x))
	}
	return x
}

var texts = []string{"", "a", "hello", "amino", "x y", "\"q\"", "\\", "<&>", "é世", "\u2028", "\x00", "{}", "null", "type", "1", "0123456789abcdef0123456789abcdef0123456789abcdef", "\x7f\n\t"}

func (g *Gen) Str() string {
	switch g.T.Pick(3, 5, 2) {
	case 0:
		return texts[g.T.Draw(len(texts))]
	case 1:
		n := g.T.Draw(6)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefgh012345XY"[g.T.Draw(16)]
		}
		return string(b)
	default:
		n := g.T.Draw(200)
		if g.T.Chance(1, 12) {
			n = g.long()
		}
		c := byte('a' + g.T.Draw(26))
		b := make([]byte, n)
		for i := range b {
			b[i] = c + byte(i%3)
		}
		s := string(b)
		if !g.JSON && g.T.Chance(1, 4) {
			s += "\xff\xfe"
		}
		if g.JSON && !utf8.ValidString(s) {
			return "v"
		}
		return s
	}
}

// userText is text handed to user code: encoding mode, '|', decoding mode.
func (g *Gen) userText() string {
	s := texts[1+g.T.Draw(3)]
	if g.Modes == "" || !g.T.Chance(1, g.rate()) {
		return s
	}
	m := string(g.Modes[g.T.Draw(len(g.Modes))]) + "!"
	switch g.T.Draw(3) {
	case 0:
		return m + s
	case 1:
		return s + "|" + m
	default:
		return m + "|" + m
	}
}

func (g *Gen) rate() int {
	if g.Rate == 0 {
		return 4
	}
	return g.Rate
}

func (g *Gen) Time() time.Time {
	var t time.Time
	switch g.T.Draw(6) {
	case 0:
		t = time.Unix(0, 0)
	case 1:
		t = time.Unix(1500000000+int64(g.T.Draw(1000)), int64(g.T.Draw(1000000000)))
	case 2:
		t = time.Unix(-int64(g.T.Draw(1<<30)), int64(g.T.Draw(1000000000)))
	case 3:
		t = time.Unix(-62135596800, 0) // the first representable instant
	case 4:
		t = time.Unix(253402300799, 999999999) // the last one
	default:
		t = time.Unix(0, int64(g.T.Draw(1000)))
	}
	if g.T.Chance(1, 3) {
		// The same instant, told elsewhere: zones are not transmitted.
		return t.In(zones[g.T.Draw(len(zones))])
	}
	return t.UTC()
}

var zones = []*time.Location{time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -8*3600), time.FixedZone("", 1)}

func (g *Gen) length(depth int) int {
	if g.left <= 0 || depth > 7 {
		return 0
	}
	n := []int{0, 1, 2, 3, 5, 17}[g.T.Pick(3, 5, 4, 2, 1, 1)]
	if n > g.left {
		n = g.left
	}
	return n
}

func (g *Gen) fill(v reflect.Value, depth int, tag reflect.StructTag) {
	g.left--
	rt := v.Type()
	switch rt {
	case timeType:
		v.Set(reflect.ValueOf(g.Time()))
		return
	case rtConv:
		v.Set(reflect.ValueOf(Conv{g.userText(), g.Int(64), g.ints(), g.leafp()}))
		return
	case rtConvStr:
		v.SetString(g.userText())
		return
	case rtPriv:
		v.Set(reflect.ValueOf(Priv{g.Int(64), g.strs()}))
		return
	case rtJM:
		v.Set(reflect.ValueOf(JM{g.userText(), int32(g.Int(32))}))
		return
	case rtRaw:
		if g.T.Chance(1, 5) {
			return
		}
		r := []string{"12", `"x"`, "true", "{}", "[]", "-1.5e3"}[g.T.Draw(6)]
		if g.T.Chance(1, 3) {
			r = `"` + texts[15][:g.T.Draw(40)] + `"`
		}
		v.SetBytes([]byte(r))
		return
	case rtCopier:
		v.Set(reflect.ValueOf(Copier{g.userText(), g.bytes()}))
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		v.SetBool(g.T.Chance(1, 2))
	case reflect.Int8:
		v.SetInt(g.Int(8))
	case reflect.Int16:
		v.SetInt(g.Int(16))
	case reflect.Int32:
		v.SetInt(g.Int(32))
	case reflect.Int64, reflect.Int:
		v.SetInt(g.Int(64))
	case reflect.Uint8:
		v.SetUint(uint64(uint8(g.Int(64))))
	case reflect.Uint16:
		v.SetUint(uint64(uint16(g.Int(64))))
	case reflect.Uint32:
		v.SetUint(uint64(uint32(g.Int(64))))
	case reflect.Uint64, reflect.Uint:
		v.SetUint(uint64(g.Int(64)))
	case reflect.Float32, reflect.Float64:
		fs := []float64{0, 1, -1.5, 0.25, 1e10, -1e-10, 3.4028234663852886e38, 1.401298464324817e-45}
		if !g.JSON {
			fs = append(fs, math.Inf(1), math.Copysign(0, -1), math.NaN())
		}
		v.SetFloat(fs[g.T.Draw(len(fs))])
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Ptr:
		if g.left <= 0 || depth > 7 || g.T.Chance(1, 3) {
			return
		}
		p := reflect.New(rt.Elem())
		g.fill(p.Elem(), depth+1, "")
		v.Set(p)
	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Uint8 {
			b := g.bytes()
			if b == nil {
				return
			}
			s := reflect.MakeSlice(rt, len(b), len(b)+g.T.Draw(4))
			reflect.Copy(reflect.ValueOf(s.Slice(0, len(b)).Bytes()), reflect.ValueOf(b))
			v.Set(s)
			return
		}
		n := g.length(depth)
		if n == 0 && g.T.Chance(1, 2) {
			return
		}
		s := reflect.MakeSlice(rt, n, n+g.T.Draw(3))
		for i := 0; i < n; i++ {
			e := s.Index(i)
			g.fill(e, depth+1, "")
			if tag.Get("amino") == "empty_elements" && e.Kind() == reflect.Ptr && e.IsNil() {
				e.Set(reflect.New(e.Type().Elem()))
			}
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < rt.Len(); i++ {
			if rt.Elem().Kind() == reflect.Uint8 {
				v.Index(i).SetUint(uint64(g.T.Draw(256)))
				continue
			}
			g.fill(v.Index(i), depth+1, "")
		}
	case reflect.Map:
		n := g.length(depth)
		if n == 0 && g.T.Chance(1, 2) {
			return
		}
		m := reflect.MakeMap(rt)
		if n > 0 && n < 4 && g.T.Chance(1, 4) {
			n += 2 // enough for keys that differ by little
		}
		for i := 0; i < n; i++ {
			k := reflect.New(rt.Key()).Elem()
			k.SetString(g.key())
			e := reflect.New(rt.Elem()).Elem()
			g.fill(e, depth+1, "")
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				continue
			}
			if g.T.Chance(1, 6) && f.Type != timeType {
				continue
			}
			g.fill(v.Field(i), depth+1, f.Tag)
		}
	case reflect.Interface:
		if g.left <= 0 || depth > 7 || g.T.Chance(1, 5) {
			return
		}
		var fit []*Conc
		for _, c := range g.Concs {
			if c.RT.Implements(rt) || reflect.PtrTo(c.RT).Implements(rt) {
				fit = append(fit, c)
			}
		}
		if len(fit) == 0 {
			return
		}
		c := fit[g.T.Draw(len(fit))]
		p := reflect.New(c.RT)
		g.fill(p.Elem(), depth+1, "")
		if c.Ptr || !c.RT.Implements(rt) || g.T.Chance(1, 8) {
			v.Set(p)
		} else {
			v.Set(p.Elem())
		}
	}
}

func (g *Gen) bytes() []byte {
	switch g.T.Pick(2, 1, 5, 2) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return g.T.Bytes(1 + g.T.Draw(8))
	default:
		n := g.T.Draw(300)
		if g.T.Chance(1, 10) {
			n = g.long()
		}
		c := byte(g.T.Draw(256))
		b := make([]byte, n)
		for i := range b {
			b[i] = c + byte(i)
		}
		return b
	}
}

// long is a length around a power of two.
func (g *Gen) long() int {
	if g.left <= 0 {
		return 0
	}
	g.left -= 10
	n := uint(8 + g.T.Draw(6))
	if g.T.Chance(1, 6) {
		g.left -= 20
		n += 3
	}
	return 1<<n + g.T.Draw(8) - 4
}

func (g *Gen) ints() []int64 {
	n := g.T.Draw(4)
	if n == 0 {
		return nil
	}
	l := make([]int64, n)
	for i := range l {
		l[i] = g.Int(64)
	}
	return l
}

func (g *Gen) strs() []string {
	n := g.T.Draw(4)
	if n == 0 {
		return nil
	}
	l := make([]string, n)
	for i := range l {
		l[i] = g.Str()
	}
	return l
}

func (g *Gen) leafp() *Leaf {
	if g.T.Chance(1, 2) {
		return nil
	}
	return &Leaf{g.Int(64), g.Str(), g.bytes()}
}

var (
	rtConv    = reflect.TypeOf(Conv{})
	rtConvStr = reflect.TypeOf(ConvStr(""))
	rtPriv    = reflect.TypeOf(Priv{})
	rtRaw     = reflect.TypeOf(Raw{})
	rtJM      = reflect.TypeOf(JM{})
	rtCopier  = reflect.TypeOf(Copier{})
)

// PickType picks a supported type: mostly one of the universe, sometimes one
// composed on the spot.
func PickType(t *simrt.Tape, ok func(*Type) bool) *Type {
	if t.Chance(1, 8) {
		if x := Compose(t, 3); ok == nil || ok(x) {
			return x
		}
	}
	sum := 0
	for _, x := range Good {
		if ok == nil || ok(x) {
			sum += x.Weight
		}
	}
	d := t.Draw(sum)
	for _, x := range Good {
		if ok == nil || ok(x) {
			if d < x.Weight {
				return x
			}
			d -= x.Weight
		}
	}
	panic("no type")
}

// Struct makes a fresh struct type: the fields are chosen by the tape, and the
// salt makes the type one that no codec of this process has met.
func Struct(t *simrt.Tape, salt string, nmin int) *Type {
	n := nmin + t.Draw(6)
	fs := Fields(t, n, salt)
	return StructOf(fs)
}

// Fields picks n fields for a struct type.
func Fields(t *simrt.Tape, n int, salt string) []reflect.StructField {
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: "F" + string(rune('A'+i%26)) + string(rune('a'+i/26))}
		c := fieldTypes[t.Draw(len(fieldTypes))]
		f.Type = c.t
		f.Tag = reflect.StructTag(c.tag)
		if i == 0 && salt != "" {
			f.Tag = reflect.StructTag(`json:"f` + salt + `" ` + c.tag)
		}
		fs = append(fs, f)
	}
	return fs
}

// FieldType is a kind of field, with the tag it needs.
func FieldType(t *simrt.Tape) (reflect.Type, string) {
	c := fieldTypes[t.Draw(len(fieldTypes))]
	return c.t, c.tag
}

// Fill generates a value in place.
func (g *Gen) Fill(v reflect.Value, tag string) {
	if g.Size == 0 {
		g.Size = 40
	}
	g.left = g.Size
	g.fill(v, 1, reflect.StructTag(tag))
}

func StructOf(fs []reflect.StructField) *Type {
	r := reflect.StructOf(fs)
	return &Type{Name: "struct", RT: r, Bin: true, JSON: true, Copy: true, Iface: true, Weight: 1}
}

type ftype struct {
	t   reflect.Type
	tag string
}

var fieldTypes []ftype

func init() {
	add := func(v interface{}, tag string) { fieldTypes = append(fieldTypes, ftype{reflect.TypeOf(v), tag}) }
	add(int64(0), "")
	add("", "")
	add([]byte{}, "")
	add(Leaf{}, "")
	add(&Leaf{}, "")
	add([]Leaf{}, "")
	add([]*Leaf{}, "")
	add([]int64{}, "")
	add([]string{}, "")
	add(int32(0), `binary:"fixed32"`)
	add(uint64(0), `binary:"fixed64"`)
	add([]int64{}, `binary:"fixed64"`)
	add(true, "")
	add(uint8(0), "")
	add(int16(0), "")
	add(time.Time{}, "")
	add([3]int32{}, "")
	add([4]byte{}, "")
	add([2]Leaf{}, "")
	add(Tree{}, "")
	add(&Tree{}, "")
	add(float64(0), `amino:"unsafe"`)
	add([][]byte{}, "")
	add([]time.Time{}, "")
	add(new(int64), "")
	add(new(string), "")
	add(Priv{}, "")
	add(Named{}, "")
	add(Ptrs{}, "")
	add([]bool{}, "")
	fieldTypes = append(fieldTypes, ftype{rt((*Shape)(nil)), ""}, ftype{rt((*[]Shape)(nil)), ""}, ftype{rt((*Node)(nil)), ""})
}

// key is a key of a map. Some differ only by case, or far from their start.
func (g *Gen) key() string {
	k := string([]byte{byte('a' + g.T.Draw(26)), byte('a' + g.T.Draw(26))})
	switch g.T.Pick(8, 2, 2, 1) {
	case 1:
		return []string{"ka", "Ka", "KA", "kA"}[g.T.Draw(4)]
	case 2:
		return "a key that is rather long, ending with " + k[:1]
	case 3:
		return []string{"", "\u00e9", "<&>", "\"", "\u2028", "type", "value"}[g.T.Draw(7)]
	}
	return k
}
