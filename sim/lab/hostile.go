package lab

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"

	amino "github.com/tendermint/go-amino"
)

// The hostile world: decodes of damaged and forged inputs next to healthy calls.

func uvarint(x uint64) []byte {
	var b [10]byte
	return b[:binary.PutUvarint(b[:], x)]
}

// nest wraps bytes in n levels of length-delimited field f.
func nest(inner []byte, n int, fields []byte) []byte {
	return wrapped(inner, n, func(i int) []byte { return fields[i%len(fields) : i%len(fields)+1] })
}

// wrapped puts, at each of n levels, something before the length of the bytes
// within.
func wrapped(inner []byte, n int, before func(i int) []byte) []byte {
	// Built from the inside out, back to front.
	buf := make([]byte, 0, len(inner)+n*5)
	rev := func(b []byte) {
		for i := len(b) - 1; i >= 0; i-- {
			buf = append(buf, b[i])
		}
	}
	rev(inner)
	for i := n - 1; i >= 0; i-- {
		rev(uvarint(uint64(len(buf))))
		rev(before(i))
	}
	for i, j := 0, len(buf)-1; i < j; i, j = i+1, j-1 {
		buf[i], buf[j] = buf[j], buf[i]
	}
	return buf
}

// bomb makes a deeply nested input and says what it is for.
func (g *opgen) bomb(json bool) (*uni.Type, []byte) {
	w := g.r.Work
	Inject(FNestBomb)
	d := 1 + w.Draw(300)
	if json {
		// Each level is scanned once more for every level around it.
		switch w.Pick(200, 100, 10, 1) {
		case 0:
			d = 1 + w.Draw(12)
		case 1:
			d = 1 + w.Draw(150)
		case 2:
			d = 1 + w.Draw(1500)
		case 3:
			d = 5000 + w.Draw(8000)
		}
	} else {
		switch w.Pick(60, 8, 1) {
		case 1:
			d = 1 + w.Draw(4000)
		case 2:
			d = 50000 + w.Draw(400000)
		}
	}
	if json {
		switch w.Draw(8) {
		case 6:
			return uni.Get("Chain"), []byte(strings.Repeat(`{"Next":`, d) + "null" + strings.Repeat("}", d))
		case 7:
			return uni.Get("Rope"), []byte(strings.Repeat(`{"Sub":[null,`, d) + "null" + strings.Repeat("]}", d))
		case 0:
			return uni.Get("Tree"), []byte(strings.Repeat(`{"Next":`, d) + "null" + strings.Repeat("}", d))
		case 1:
			return uni.Get("Tree"), []byte(strings.Repeat(`{"Kids":[`, d) + strings.Repeat("]}", d))
		case 2:
			return uni.Get("Tree"), bytes.Repeat([]byte(`{"Next":`), d)
		case 3:
			return uni.Get("Holder"), []byte(`{"S":` + strings.Repeat(`{"type":"sim/Group","value":{"One":`, d) + "null" + strings.Repeat("}}", d) + "}")
		case 4:
			return g.pickType(false), bytes.Repeat([]byte("["), d)
		}
		return g.pickType(false), []byte(strings.Repeat("[", d) + strings.Repeat("]", d))
	}
	switch w.Draw(7) {
	case 0:
		return uni.Get("Tree"), nest(nil, d, []byte{0x1a}) // Next
	case 1:
		return uni.Get("Tree"), nest(nil, d, []byte{0x12}) // Kids
	case 2:
		return uni.Get("Tree"), nest([]byte{8, 1}, d, []byte{0x12, 0x1a, 0x1a})
	case 3:
		return uni.Get("MutA"), nest(nil, d, []byte{0x12, 0x12})
	case 4:
		return uni.Get("Chain"), nest(nil, d, []byte{0x12}) // through representations
	case 5:
		// The second elements of arrays.
		e := []byte{0x12, 0, 0x12}
		return uni.Get("Rope"), wrapped([]byte{0x12, 0, 0x12, 0}, d, func(int) []byte { return e })
	}
	// Groups in groups, through an interface.
	var name string
	for _, reg := range g.cfg.Regs {
		if reg.Conc != nil && reg.Conc.Name == "sim/Group" {
			name = reg.Name
		}
	}
	if name == "" {
		return uni.Get("Tree"), nest(nil, d, []byte{0x1a})
	}
	p := prefixOf(name)
	lead := append(append([]byte(nil), p[:]...), 0x22) // One
	buf := wrapped(p[:], d, func(int) []byte { return lead })
	out := append([]byte{0x0a}, uvarint(uint64(len(buf)))...)
	return uni.Get("Holder"), append(out, buf...)
}

// hostile makes a decode of an input no codec produced.
func (g *opgen) hostile(json bool) *sys.Op {
	w := g.r.Work
	enc := func() (*uni.Type, []byte) {
		for i := 0; i < 5; i++ {
			t := g.pickType(false)
			if !json && !t.Bin {
				continue
			}
			k := sys.Bare
			if json {
				k = sys.JSON
			}
			e := &sys.Op{Kind: k, Type: t, Val: g.gen(json).Value(t.RT)}
			if res := alone(e, g.cfg); res.Class == "ok" {
				return t, append([]byte(nil), res.Bytes...)
			}
		}
		return uni.Get("Leaf"), nil
	}
	t, data := enc()
	forge := 6
	if !json {
		forge = 9
	}
	switch w.Pick(8, 3, 3, 2, 1, 2, forge) {
	case 0:
		data = Corrupt(w, data, json)
	case 1: // misdirected
		Inject(FMisdirect)
		t = g.pickType(false)
		if w.Chance(1, 3) {
			data = Corrupt(w, data, json)
		}
	case 2: // spliced with another message
		Inject(FSplice)
		_, o := enc()
		data = append(data[:w.Draw(len(data)+1):len(data)], o[w.Draw(len(o)+1):]...)
	case 3:
		t, data = g.bomb(json)
		if w.Chance(1, 4) && len(data) < 5000 {
			data = Corrupt(w, data, json)
		}
	case 4: // noise
		Inject(FForge)
		data = w.Bytes(w.Draw(100))
		if json {
			for i := range data {
				data[i] = `{}[]":,0123456789.eE+-truefalsn \typvaue`[int(data[i])%40]
			}
		}
	case 5: // very many tiny elements
		Inject(FForge)
		n := 1 + w.Draw(3000)
		if json {
			e := []string{"{},", "null,", "[],", "0,", `"",`, "true,"}[w.Draw(6)]
			s := "[" + strings.TrimSuffix(strings.Repeat(e, n), ",") + "]"
			t = g.pickType(false)
			if t.RT.Kind() == reflect.Struct && t.RT.NumField() > 0 {
				s = fmt.Sprintf(`{"%s":%s}`, t.RT.Field(w.Draw(t.RT.NumField())).Name, s)
			}
			data = []byte(s)
		} else {
			t = g.pickType(false)
			f := byte(1 + w.Draw(13))
			e := [][]byte{{f<<3 | 2, 0}, {f << 3, 0}, {f<<3 | 2, 1, 0}, {f<<3 | 2, 2, 10, 0}, {0}}[w.Draw(5)]
			data = bytes.Repeat(e, n)
			if w.Chance(1, 2) {
				data = append(append([]byte{byte(1+w.Draw(13))<<3 | 2}, uvarint(uint64(len(data)))...), data...)
			}
		}
	case 6: // written by another implementation, which goes wrong
		for i := 0; i < 5; i++ {
			if t = g.pickType(false); t.Bin || json {
				break
			}
		}
		if w.Chance(3, 5) {
			t = uni.Compose(w, w.Draw(3))
		}
		if json {
			data = g.forgeJSON(t, g.cfg)
		} else {
			data = g.forge(t, g.cfg)
		}
	}
	if !json && !t.Bin {
		t = uni.Get("Lists")
	}
	o := &sys.Op{Kind: sys.UJSON, Type: t, Data: data}
	if json {
		return o
	}
	o.Kind = sys.UBare
	if w.Chance(2, 5) {
		o.Kind = []sys.Kind{sys.ULP, sys.ULPReader}[w.Draw(2)]
		pre := uvarint(uint64(len(data)))
		if w.Chance(1, 8) {
			pre = uvarint(w.U64() >> uint(w.Draw(64)))
		}
		o.Data = append(append([]byte(nil), pre...), data...)
		if o.Kind == sys.ULPReader && w.Chance(1, 2) {
			o.Max = 1 << 24
		}
	}
	return o
}

// depthOf is the nesting depth of a JSON text.
func depthOf(b []byte) int {
	d, max := 0, 0
	for _, c := range b {
		switch c {
		case '{', '[':
			d++
			if d > max {
				max = d
			}
		case '}', ']':
			d--
		}
	}
	return max
}

// fair is the memory a decode may allocate.
func fair(o *sys.Op) uint64 {
	n := uint64(len(o.Data))
	if o.Kind.IsJSON() {
		return 1<<20 + 600*n + 100*n*uint64(1+depthOf(o.Data))
	}
	if o.Kind == sys.ULPReader {
		n += uint64(o.Max) / 1000
	}
	return 1<<20 + 1500*n
}

// knowsIfaces tells whether the interfaces a type holds are known to a codec. One
// that was told nothing of some interface reads nothing, or a null, into a type
// holding it, and can encode no value of that type.
func knowsIfaces(ref sys.Codec, t reflect.Type) bool {
	set := map[reflect.Type]bool{}
	touchedTypes(t, set)
	for t := range set {
		if t.Kind() == reflect.Interface {
			v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: t}})).Elem()
			z := &sys.Op{Kind: sys.Bare, Type: &uni.Type{Name: "holder", RT: v.Type()}, Val: v}
			if z.Run(ref, nil, sys.PlainIO{}).Class != "ok" {
				return false
			}
		}
	}
	return true
}

// contained checks the result of a hostile decode.
func (r *Run) contained(o *sys.Op, got sys.Result, ref sys.Codec, how string) {
	if r.Failed() {
		return
	}
	Checked()
	r.Note(got.Class)
	r.Note(got.Val)
	switch got.Class {
	case "panic":
		if strings.Contains(got.Err, uni.UserPanic) {
			return // of user code, in a text that damage changed
		}
		r.Fail("panic", "%v, %s: %v", o, how, got)
	case "ok":
		if o.Kind.IsJSON() && !json.Valid(o.Data) && o.Type.RT != reflect.TypeOf(uni.JM{}) {
			r.Fail("accepted", "%v, %s, is no JSON, but was accepted: %v", o, how, got)
			return
		}
		// Well-formed: it can be encoded again.
		v := got.Value.Elem()
		if v.Kind() == reflect.Interface && v.IsNil() {
			return
		}
		k := sys.Bare
		if o.Kind.IsJSON() {
			k = sys.JSON
		}
		e := &sys.Op{Kind: k, Type: o.Type, Val: v}
		// Damage may have turned a text into one that makes user code fail.
		res := e.Run(ref, nil, sys.PlainIO{})
		if res.Class != "ok" && !strings.Contains(res.Err, uni.ErrUser.Error()) && !strings.Contains(res.Err, uni.UserPanic) && knowsIfaces(ref, v.Type()) {
			r.Fail("malformed", "%v, %s, gave a value that cannot be encoded: %s\n %v", o, how, clip(got.Val, 800), res)
		}
	}
}

// decoders are the exported functions that decode a single item.
var decoders = []struct {
	name string
	f    func(b []byte) (int, error)
}{
	{"DecodeInt8", func(b []byte) (int, error) { _, n, err := amino.DecodeInt8(b); return n, err }},
	{"DecodeInt16", func(b []byte) (int, error) { _, n, err := amino.DecodeInt16(b); return n, err }},
	{"DecodeInt32", func(b []byte) (int, error) { _, n, err := amino.DecodeInt32(b); return n, err }},
	{"DecodeInt64", func(b []byte) (int, error) { _, n, err := amino.DecodeInt64(b); return n, err }},
	{"DecodeVarint", func(b []byte) (int, error) { _, n, err := amino.DecodeVarint(b); return n, err }},
	{"DecodeByte", func(b []byte) (int, error) { _, n, err := amino.DecodeByte(b); return n, err }},
	{"DecodeUint8", func(b []byte) (int, error) { _, n, err := amino.DecodeUint8(b); return n, err }},
	{"DecodeUint16", func(b []byte) (int, error) { _, n, err := amino.DecodeUint16(b); return n, err }},
	{"DecodeUint32", func(b []byte) (int, error) { _, n, err := amino.DecodeUint32(b); return n, err }},
	{"DecodeUint64", func(b []byte) (int, error) { _, n, err := amino.DecodeUint64(b); return n, err }},
	{"DecodeUvarint", func(b []byte) (int, error) { _, n, err := amino.DecodeUvarint(b); return n, err }},
	{"DecodeBool", func(b []byte) (int, error) { _, n, err := amino.DecodeBool(b); return n, err }},
	{"DecodeFloat32", func(b []byte) (int, error) { _, n, err := amino.DecodeFloat32(b); return n, err }},
	{"DecodeFloat64", func(b []byte) (int, error) { _, n, err := amino.DecodeFloat64(b); return n, err }},
	{"DecodeTime", func(b []byte) (int, error) { _, n, err := amino.DecodeTime(b); return n, err }},
	{"DecodeByteSlice", func(b []byte) (int, error) { _, n, err := amino.DecodeByteSlice(b); return n, err }},
	{"DecodeString", func(b []byte) (int, error) { _, n, err := amino.DecodeString(b); return n, err }},
	{"DecodeDisambPrefixBytes", func(b []byte) (int, error) {
		_, _, _, _, n, err := amino.DecodeDisambPrefixBytes(b)
		return n, err
	}},
}

func (r *Run) item1(b []byte, k int) {
	d := decoders[k]
	CountOp()
	Checked()
	func() {
		fin := false
		defer func() {
			if !fin {
				if p := recover(); p != nil {
					r.Fail("panic", "%s(%X): panic %v", d.name, clipBytes(b, 100), p)
				}
			}
		}()
		n, err := d.f(b)
		fin = true
		r.Note(fmt.Sprint(n, err))
		if n < 0 || n > len(b) {
			r.Fail("count", "%s(%X): consumed %d of %d bytes (err %v)", d.name, clipBytes(b, 100), n, len(b), err)
		}
	}()
}

func hostileWorld(r *Run, json bool) {
	w := r.Work
	m := mix{modes: "YE", rate: 6, bad: 0, corrupt: 0, unreg: 5, pkg: 8}
	cfg := r.newCfg()
	c := cfg.Apply(sys.New())
	var gcfg = cfg
	if w.Chance(1, 10) {
		c, cfg = sys.Pkg(), nil
		gcfg = &sys.Config{}
	}
	g := &opgen{r: r, m: m, cfg: gcfg, dyn: r.dynTypes()}
	g.pool()
	ref := func() sys.Codec {
		if cfg == nil {
			return sys.RefPkg()
		}
		return cfg.Apply(sys.Ref())
	}()
	if w.Chance(1, 4) {
		// Alone, with its memory watched.
		n := 1 + w.Draw(3)
		for i := 0; i < n && !r.Failed(); i++ {
			o := g.hostile(json)
			warm := &sys.Op{Kind: o.Kind, Type: o.Type, Data: nil}
			warm.Run(c, nil, sys.PlainIO{})
			r.Log("call   %v (%d bytes)", o, len(o.Data))
			dst := reflect.New(o.Type.RT)
			a := allocated()
			got := raw(o, c, dst)
			a = allocated() - a
			r.Log("return %v, %d bytes allocated", got, a)
			if b := fair(o); a > b {
				r.Fail("memory", "%v, an input of %d bytes, allocated %d bytes", o, len(o.Data), a)
			}
			if got.Class == "ok" {
				got.Val = uni.DumpV(dst.Elem())
			}
			got.Value = dst
			r.contained(o, got, ref, "made alone")
			r.refine(o, got, newModel(cfg), "made alone")
		}
		return
	}
	var tasks [][]*item
	n := 1 + w.Draw(4)
	hostile := map[*item]bool{}
	for i := 0; i < n; i++ {
		var items []*item
		k := 1 + w.Draw(4)
		for j := 0; j < k; j++ {
			if w.Chance(1, 3) {
				it := g.item()
				items = append(items, it)
				continue
			}
			it := &item{op: g.hostile(json)}
			r.Extra += 400 * int64(len(it.op.Data))
			if json {
				r.Extra += int64(len(it.op.Data)) * int64(depthOf(it.op.Data))
			}
			pl := r.ioPlan(true, false)
			if len(it.op.Data) > 2000 {
				pl.chunk, pl.zero = false, false
			}
			it.io = simIO{r, pl}
			hostile[it] = true
			items = append(items, it)
		}
		tasks = append(tasks, items)
	}
	var raws [][]byte
	if !json && w.Chance(1, 2) {
		k := 1 + w.Draw(10)
		for i := 0; i < k; i++ {
			_, b := uni.Get("Leaf"), g.decode().Data
			if w.Chance(1, 2) {
				b = Corrupt(w, b, false)
			}
			if w.Chance(1, 2) {
				b = append(append([]byte(nil), binBits[w.Draw(len(binBits))]...), b...)
			}
			raws = append(raws, b)
		}
	}
	p := &codecPlan{c: c, cfg: cfg, g: g, tasks: tasks}
	p.wants(r)
	r.Sim(func(s *simrt.Sim) {
		p.spawn(r, s, 0, nil)
		if len(raws) > 0 {
			r.Spawn(s, "items", 0, func(*simrt.Task) {
				for _, b := range raws {
					r.item1(b, w.Draw(len(decoders)))
				}
			})
		}
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	mod := newModel(cfg)
	p.each(func(it *item) {
		if hostile[it] {
			r.contained(it.op, it.got, ref, "next to other calls")
			r.refine(it.op, it.got, mod, "next to other calls")
			if it.want.Class == "panic" {
				r.contained(it.op, it.want, ref, "made alone")
			}
		}
		r.judge(it, it.got, "next to hostile inputs")
	})
	if !r.Failed() {
		p.after(r)
	}
}

// raw makes a decode with as little as possible around it.
func raw(o *sys.Op, c sys.Codec, dst reflect.Value) (res sys.Result) {
	defer func() {
		if p := recover(); p != nil {
			res.Class, res.Err = "panic", fmt.Sprint(p)
		}
	}()
	CountOp()
	var err error
	switch o.Kind {
	case sys.UBare:
		err = c.UnmarshalBinaryBare(o.Data, dst.Interface())
	case sys.ULP:
		err = c.UnmarshalBinaryLengthPrefixed(o.Data, dst.Interface())
	case sys.ULPReader:
		_, err = c.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(o.Data), dst.Interface(), o.Max)
	case sys.UJSON:
		err = c.UnmarshalJSON(o.Data, dst.Interface())
	}
	res.Class = "ok"
	if err != nil {
		res.Class, res.Err = "err", sys.Norm(err.Error())
	}
	return
}

func init() {
	world("C13", func(r *Run) { hostileWorld(r, false) })
	world("C14", func(r *Run) { hostileWorld(r, true) })
}
