package lab

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// jforger writes JSON texts of a type as documented, as another implementation
// would, and goes wrong here and there.
type jforger struct {
	t    *simrt.Tape
	m    *model
	rate int
	left int
}

func (f *jforger) wrong() bool { return f.t.Chance(1, f.rate) }

var rtUnmarshaler = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()

func ident(t *simrt.Tape) string {
	return []string{"", "a", "A", "B", "X", "type", "value", "Extra", "é", `\"`, "a b"}[t.Draw(11)]
}

var jstray = []string{"null", "true", "false", "0", "-0", "1", `"1"`, `""`, `"-1"`, "[]", "{}", "[null]", "[0]", `{"type":"","value":null}`, "1.0", "1e2", `"1e2"`, `"1.0"`, `" 1"`, `"1 "`, `"+1"`, `"0x1"`, `"1_0"`, `"01"`, "01", `"null"`, `"true"`, `"\u0031"`, `"AA=="`, `"AA"`, `"AB=="`, `"A\n"`, `"-"`, "-", ".5", `"--1"`, "nul", `"`, "", " ", "//", `{"a":1,}`, "[1,]", `"\ud800"`, "\"\xff\"", "1 2", `"2000-01-01T00:00:00Z"`}

func (f *jforger) space() string {
	if f.t.Chance(1, 30) {
		return []string{" ", "\n", "\t ", "\r\n"}[f.t.Draw(4)]
	}
	return ""
}

func (f *jforger) num(rt reflect.Type) string {
	k := rt.Bits()
	var s string
	switch rt.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(edgeNum(f.t))
		if f.t.Chance(1, 2) {
			// At the borders of the type.
			x = (int64(1)<<uint(k-1) - 1) + int64(f.t.Draw(3)) - 1
			if f.t.Chance(1, 2) {
				x = -x - 1
			}
		}
		if !f.wrong() {
			x = x << uint(64-k) >> uint(64-k)
		}
		s = strconv.FormatInt(x, 10)
	default:
		x := edgeNum(f.t)
		if f.t.Chance(1, 2) {
			x = 1<<uint(k-1)<<1 + uint64(f.t.Draw(3)) - 2
		}
		if !f.wrong() {
			x = x << uint(64-k) >> uint(64-k)
		}
		s = strconv.FormatUint(x, 10)
	}
	quoted := k == 64
	if f.wrong() {
		switch f.t.Draw(9) {
		case 0:
			quoted = !quoted
		case 1:
			s += ".0"
		case 2:
			s += "e1"
		case 3:
			s = "0" + s
		case 4:
			s = "+" + s
		case 5:
			s = s + " "
		case 6:
			s = " " + s
		case 7:
			s = "-" + s
		case 8:
			s += "0"
		}
	}
	if quoted {
		return `"` + s + `"`
	}
	return s
}

func (f *jforger) float(rt reflect.Type) string {
	x := math.Float64frombits(f.t.U64())
	if f.t.Chance(1, 2) {
		x = float64(int(f.t.Draw(2000)) - 1000)
	}
	if math.IsNaN(x) || math.IsInf(x, 0) {
		if f.wrong() {
			return []string{"NaN", "Infinity", "1e999", "-1e999", `"NaN"`}[f.t.Draw(5)]
		}
		x = 0
	}
	if rt.Bits() == 32 && !f.wrong() {
		x = float64(float32(x))
		if math.IsInf(x, 0) {
			x = 1
		}
	}
	return strconv.FormatFloat(x, 'g', -1, rt.Bits())
}

func (f *jforger) text() string {
	var b strings.Builder
	b.WriteByte('"')
	for i := f.t.Draw(6); i > 0; i-- {
		b.WriteString([]string{"a", "b ", `\n`, `\"`, `\\`, `\/`, `\u0041`, `\u00e9`, "é", `\ud83d\ude00`, "世", `\u2028`, `<`, `\u0000`}[f.t.Draw(14)])
		if f.wrong() {
			b.WriteString([]string{"\n", "\x00", "\xff", `\x`, `\u12`, `\ud800`, `"`, "\t"}[f.t.Draw(8)])
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (f *jforger) base64(n int) string {
	s := base64.StdEncoding.EncodeToString(f.t.Bytes(n))
	if f.wrong() {
		switch f.t.Draw(5) {
		case 0:
			s = strings.TrimRight(s, "=")
		case 1:
			s += "="
		case 2:
			i := f.t.Draw(len(s) + 1)
			s = s[:i] + []string{"-", "_", `\n`, `\r\n`, " ", "!", `\u0041`}[f.t.Draw(7)] + s[i:]
		case 3:
			s = s[:f.t.Draw(len(s)+1)]
		case 4:
			if len(s) > 3 {
				s = s[:len(s)-2] + "9="
			}
		}
	}
	return `"` + s + `"`
}

func (f *jforger) time() string {
	x := time.Unix(int64(f.t.Draw(1<<31-1)), int64(f.t.Draw(1e9)))
	if f.t.Chance(1, 4) {
		x = time.Unix([]int64{-62135596800, 253402300799, 0, -1}[f.t.Draw(4)], 0)
	}
	if f.wrong() {
		x = time.Unix([]int64{-62135596801, 253402300800, -99999999999}[f.t.Draw(3)], 0)
	}
	s := x.UTC().Format([]string{time.RFC3339Nano, time.RFC3339, "2006-01-02T15:04:05.000000000Z07:00"}[f.t.Draw(3)])
	if f.wrong() {
		switch f.t.Draw(8) {
		case 0:
			s = strings.TrimSuffix(s, "Z") + []string{"+00:00", "-05:00", "z", "", " Z", "+01:00Z", "ZZ"}[f.t.Draw(7)]
		case 1:
			s = strings.Replace(s, "T", " ", 1)
		case 2:
			s = strings.Replace(s, ".", ",", 1)
		case 3:
			s = s[:5] + "13" + s[7:]
		case 4:
			s = s[:8] + []string{"31", "30", "29", "00"}[f.t.Draw(4)] + s[10:]
		case 5:
			s = s[:11] + []string{"24", "1", "99"}[f.t.Draw(3)] + s[13:]
		case 6:
			s = "1" + s
		case 7:
			s = s[:17] + "60" + s[19:]
		}
	}
	return `"` + s + `"`
}

// object writes members, and goes wrong with their order, names and number.
func (f *jforger) object(names, vals []string) string {
	if f.wrong() && len(names) > 0 {
		i, j := f.t.Draw(len(names)), f.t.Draw(len(names))
		switch f.t.Draw(8) {
		case 0: // another order
			names[i], names[j] = names[j], names[i]
			vals[i], vals[j] = vals[j], vals[i]
		case 1: // twice
			names, vals = append(names, names[i]), append(vals, vals[j])
		case 2: // another case
			names[i] = strings.ToLower(names[i])
		case 3:
			names[i] = strings.ToUpper(names[i])
		case 4: // left out
			names, vals = append(names[:i:i], names[i+1:]...), append(vals[:i:i], vals[i+1:]...)
		case 5: // more
			names, vals = append(names, ident(f.t)), append(vals, jstray[f.t.Draw(len(jstray))])
		case 6:
			names, vals = append([]string{strings.ToUpper(names[i])}, names...), append([]string{vals[j]}, vals...)
		case 7: // escaped
			if names[i] != "" {
				names[i] = fmt.Sprintf(`\u%04x`, names[i][0]) + names[i][1:]
			}
		}
	}
	var b strings.Builder
	b.WriteString(f.space() + "{")
	for i, n := range names {
		if i > 0 {
			b.WriteString("," + f.space())
		}
		b.WriteString(f.space() + `"` + n + `"` + f.space() + ":" + vals[i])
	}
	b.WriteString(f.space() + "}" + f.space())
	return b.String()
}

func (f *jforger) list(rt reflect.Type, n int, o mopts, depth int) string {
	if rt.Kind() == reflect.Array {
		n = rt.Len()
		if f.wrong() {
			n += f.t.Draw(3) - 1
		}
	}
	var es []string
	for i := 0; i < n && i < 70; i++ {
		es = append(es, f.val(rt.Elem(), o, depth+1))
	}
	return f.space() + "[" + strings.Join(es, ",") + "]"
}

func (f *jforger) val(rt reflect.Type, o mopts, depth int) (s string) {
	defer func() {
		f.left -= len(s)
		if f.wrong() && f.t.Chance(1, 2) {
			s = jstray[f.t.Draw(len(jstray))]
		}
		s = f.space() + s + f.space()
	}()
	rt = bottom(rt)
	if depth > 8 || f.left < 0 || f.t.Chance(1, 15) {
		return "null"
	}
	if rt == rtTime {
		return f.time()
	}
	if rt.Kind() != reflect.Interface {
		if reflect.PtrTo(rt).Implements(rtUnmarshaler) {
			return []string{`"x"`, `"7"`, "{}", `{"a":1}`, "3", `"a|b"`, "[1, 2]"}[f.t.Draw(7)]
		}
		if um, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); ok {
			return f.val(um.Type.In(1), o, depth+1)
		}
	}
	switch rt.Kind() {
	case reflect.Interface:
		var can []*mconc
		for _, c := range f.m.concs {
			if reflect.PtrTo(c.rt).Implements(rt) || f.t.Chance(1, 40) {
				can = append(can, c)
			}
		}
		if len(can) == 0 {
			return "null"
		}
		c := can[f.t.Draw(len(can))]
		return f.wrap(c.name, f.val(c.rt, o, depth+1))
	case reflect.Bool:
		return []string{"true", "false"}[f.t.Draw(2)]
	case reflect.String:
		return f.text()
	case reflect.Float32, reflect.Float64:
		return f.float(rt)
	case reflect.Slice, reflect.Array:
		n := []int{0, 1, 2, 3, 20}[f.t.Pick(2, 4, 2, 1, 1)]
		if byteList(rt) {
			if rt.Kind() == reflect.Array {
				n = rt.Len()
				if f.wrong() {
					n += f.t.Draw(3) - 1
				}
			}
			if n < 0 {
				n = 0
			}
			if f.wrong() {
				return f.list(rt, n, o, depth)
			}
			return f.base64(n)
		}
		return f.list(rt, n, o, depth)
	case reflect.Struct:
		var ns, vs []string
		for i := 0; i < rt.NumField(); i++ {
			fd := rt.Field(i)
			tag := fd.Tag.Get("json")
			if fd.PkgPath != "" && !f.t.Chance(1, 10) || tag == "-" && !f.t.Chance(1, 10) {
				continue
			}
			name := strings.Split(tag, ",")[0]
			if name == "" || f.t.Chance(1, 30) {
				name = fd.Name
			}
			if f.t.Chance(1, 3) {
				continue
			}
			ns, vs = append(ns, name), append(vs, f.val(fd.Type, optsOf(fd.Tag), depth+1))
		}
		return f.object(ns, vs)
	case reflect.Map:
		var ns, vs []string
		for i := f.t.Draw(4); i > 0; i-- {
			ns, vs = append(ns, ident(f.t)), append(vs, f.val(rt.Elem(), o, depth+1))
		}
		return f.object(ns, vs)
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128:
		return jstray[f.t.Draw(len(jstray))]
	}
	return f.num(rt)
}

func (f *jforger) wrap(name, val string) string {
	if f.wrong() {
		switch f.t.Draw(4) {
		case 0:
			name += "x"
		case 1:
			name = ""
		case 2:
			name = f.m.concs[f.t.Draw(len(f.m.concs))].name
		case 3:
			name = strings.ToUpper(name)
		}
	}
	return f.object([]string{"type", "value"}, []string{quote(name), val})
}

// forgeJSON writes a text of type t.
func (g *opgen) forgeJSON(t *uni.Type, cfg *sys.Config) []byte {
	w := g.r.Work
	Inject(FForge)
	f := &jforger{t: w, m: newModel(cfg), rate: []int{8, 20, 60}[w.Draw(3)], left: 1500}
	s := f.val(t.RT, mopts{}, 0)
	if c := f.m.conc(t.RT); c != nil && !f.wrong() {
		s = f.wrap(c.name, s)
	}
	return []byte(s)
}

// quote writes a text in JSON.
func quote(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}
