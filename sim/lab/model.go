package lab

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"amsim/sys"
	"amsim/uni"
)

// model is a small reference model of the binary decoder, written from the
// published format: what it refuses must not be accepted, and what it reads must
// not be read as anything else. It works on whole messages cut into fields, each
// within its own bounds, rather than on a sliding window.
type model struct {
	concs []*mconc
}

type mconc struct {
	rt     reflect.Type
	ptr    bool
	name   string
	disamb [3]byte
	prefix [4]byte
}

// errUnknown: the model cannot tell.
var errUnknown = errors.New("unknown to the model")

var rtTime = reflect.TypeOf(time.Time{})

func newModel(cfg *sys.Config) *model {
	m := &model{}
	if cfg == nil {
		return m
	}
	for _, r := range cfg.Regs {
		if r.Conc == nil {
			continue
		}
		c := &mconc{rt: r.Conc.RT, ptr: r.Conc.Ptr, name: r.Name}
		h := sha256.Sum256([]byte(r.Name))
		b := h[:]
		skip := func() {
			for b[0] == 0 {
				b = b[1:]
			}
		}
		skip()
		b = b[copy(c.disamb[:], b):]
		skip()
		copy(c.prefix[:], b)
		m.concs = append(m.concs, c)
	}
	return m
}

func (m *model) conc(rt reflect.Type) *mconc {
	for _, c := range m.concs {
		if c.rt == rt {
			return c
		}
	}
	return nil
}

func isLate(rt reflect.Type) bool {
	for _, c := range uni.Lates {
		if c.RT == rt {
			return true
		}
	}
	return false
}

// mopts are the options of a field.
type mopts struct {
	fix32, fix64, unsafe, empties bool

	num int // the number elements repeat: the field's, within lists 1
}

func optsOf(tag reflect.StructTag) mopts {
	var o mopts
	switch tag.Get("binary") {
	case "fixed32":
		o.fix32 = true
	case "fixed64":
		o.fix64 = true
	}
	for _, s := range strings.Split(tag.Get("amino"), ",") {
		switch s {
		case "unsafe":
			o.unsafe = true
		case "empty_elements":
			o.empties = true
		}
	}
	return o
}

func bottom(rt reflect.Type) reflect.Type {
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	return rt
}

func wireType(rt reflect.Type, o mopts) uint64 {
	switch rt.Kind() {
	case reflect.Int64, reflect.Uint64:
		if o.fix64 {
			return 1
		}
	case reflect.Int32, reflect.Uint32:
		if o.fix32 {
			return 5
		}
	case reflect.Float64:
		return 1
	case reflect.Float32:
		return 5
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Bool:
	default:
		return 2
	}
	return 0
}

func byteList(rt reflect.Type) bool {
	return (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && rt.Elem().Kind() == reflect.Uint8
}

func isList(rt reflect.Type) bool {
	return (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && !byteList(rt)
}

// cell is a field as it lies on the wire.
type cell struct {
	num  uint64
	typ  uint64
	body []byte // without the length of a delimited one
	zero bool   // delimited, and its length is a single zero byte
}

// cells cuts a message into fields.
func cells(b []byte) ([]cell, error) {
	var out []cell
	for len(b) > 0 {
		key, n := binary.Uvarint(b)
		if n <= 0 || key>>3 > 1<<29-1 {
			return nil, errors.New("bad key")
		}
		c := cell{num: key >> 3, typ: key & 7}
		b = b[n:]
		l := 0
		switch c.typ {
		case 0:
			if _, l = binary.Uvarint(b); l <= 0 {
				return nil, errors.New("bad varint")
			}
		case 1:
			l = 8
		case 5:
			l = 4
		case 2:
			x, n := binary.Uvarint(b)
			if n <= 0 || x > uint64(len(b)-n) {
				return nil, errors.New("bad length")
			}
			c.zero = n == 1 && x == 0
			b = b[n:]
			l = int(x)
		default:
			return nil, fmt.Errorf("bad wire type %d", c.typ)
		}
		if l > len(b) {
			return nil, errors.New("cut")
		}
		c.body = b[:l]
		b = b[l:]
		out = append(out, c)
	}
	return out, nil
}

// Bare decodes a top-level message.
func (m *model) Bare(rt reflect.Type, b []byte) (v reflect.Value, err error) {
	rt = bottom(rt)
	if isLate(rt) {
		return v, errUnknown
	}
	if rt.Kind() == reflect.Map {
		return v, errUnknown
	}
	if rt.Kind() == reflect.Interface {
		if len(b) == 0 {
			return v, errors.New("empty")
		}
		return m.iface(rt, b, mopts{num: 1}, true)
	}
	if len(b) == 0 {
		return m.missing(rt), nil
	}
	if c := m.conc(rt); c != nil {
		if len(b) < 4 || string(b[:4]) != string(c.prefix[:]) {
			return v, errors.New("other prefix bytes")
		}
		b = b[4:]
	}
	return m.top(rt, b)
}

// top decodes the contents of a top-level message.
func (m *model) top(rt reflect.Type, b []byte) (v reflect.Value, err error) {
	if rt.Kind() == reflect.Struct || isList(rt) && rt.Elem().Kind() == reflect.Struct {
		return m.contents(rt, b, mopts{num: 1}, 1)
	}
	if len(b) == 0 {
		// Left out, as a field is.
		switch wireType(rt, mopts{}) {
		case 0:
			b = []byte{8, 0}
		case 2:
			b = []byte{10, 0}
		default:
			return v, errUnknown
		}
	}
	cs, err := cells(b)
	if err != nil {
		return v, err
	}
	if len(cs) != 1 {
		return v, fmt.Errorf("%d fields", len(cs))
	}
	return m.field(rt, cs[0], 1, mopts{num: 1}, 1)
}

// field decodes a field, or an element of a list, from its cell.
func (m *model) field(rt reflect.Type, c cell, num int, o mopts, depth int) (v reflect.Value, err error) {
	t := bottom(rt)
	if c.num != uint64(num) {
		return v, fmt.Errorf("field %d for %d", c.num, num)
	}
	if w := wireType(t, o); c.typ != w {
		return v, fmt.Errorf("wire type %d for %d", c.typ, w)
	}
	v, err = m.contents(t, c.body, o, depth)
	return wrap(rt, v), err
}

// wrap puts pointers in front of a value.
func wrap(rt reflect.Type, v reflect.Value) reflect.Value {
	if !v.IsValid() || v.Type() == rt {
		return v
	}
	p := reflect.New(rt.Elem())
	p.Elem().Set(wrap(rt.Elem(), v))
	return p
}

// missing is the value of a type that nothing was sent for.
func (m *model) missing(rt reflect.Type) reflect.Value {
	v := reflect.New(rt).Elem()
	switch {
	case bottom(rt) == rtTime:
		v.Set(wrap(rt, reflect.ValueOf(time.Unix(0, 0).UTC())))
	case rt.Kind() == reflect.Struct:
		if _, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); ok {
			break
		}
		for i := 0; i < rt.NumField(); i++ {
			if f := rt.Field(i); f.PkgPath == "" && f.Tag.Get("json") != "-" {
				v.Field(i).Set(m.missing(f.Type))
			}
		}
	}
	return v
}

// contents decodes a value of a type that is no pointer from just its bytes.
func (m *model) contents(rt reflect.Type, b []byte, o mopts, depth int) (v reflect.Value, err error) {
	if um, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); ok && rt.Kind() != reflect.Interface {
		in := um.Type.In(1)
		r, err := m.contents(bottom(in), b, o, depth+1)
		if err != nil {
			return v, err
		}
		p := reflect.New(rt)
		out := p.MethodByName("UnmarshalAmino").Call([]reflect.Value{wrap(in, r)})
		if e := out[0].Interface(); e != nil {
			return v, e.(error)
		}
		return p.Elem(), nil
	}
	v = reflect.New(rt).Elem()
	uv := func() (x uint64) {
		var n int
		if x, n = binary.Uvarint(b); n != len(b) || n <= 0 {
			err = errors.New("not a varint")
		}
		return
	}
	le := func(n int) uint64 {
		if len(b) != n {
			err = errors.New("bad size")
			return 0
		}
		if n == 4 {
			return uint64(binary.LittleEndian.Uint32(b))
		}
		return binary.LittleEndian.Uint64(b)
	}
	switch rt.Kind() {
	case reflect.Bool:
		if len(b) != 1 || b[0] > 1 {
			return v, errors.New("not a bool")
		}
		v.SetBool(b[0] == 1)
	case reflect.Int8, reflect.Int16:
		x, n := binary.Varint(b)
		if n != len(b) || v.OverflowInt(x) {
			return v, errors.New("out of range")
		}
		v.SetInt(x)
	case reflect.Int32:
		if o.fix32 {
			v.SetInt(int64(int32(le(4))))
			break
		}
		x := int64(uv())
		if v.OverflowInt(x) {
			return v, errors.New("out of range")
		}
		v.SetInt(x)
	case reflect.Int64, reflect.Int:
		if o.fix64 && rt.Kind() == reflect.Int64 {
			v.SetInt(int64(le(8)))
		} else {
			v.SetInt(int64(uv()))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		if o.fix32 && rt.Kind() == reflect.Uint32 {
			v.SetUint(le(4))
			break
		}
		x := uv()
		if v.OverflowUint(x) {
			return v, errors.New("out of range")
		}
		v.SetUint(x)
	case reflect.Uint64, reflect.Uint:
		if o.fix64 && rt.Kind() == reflect.Uint64 {
			v.SetUint(le(8))
		} else {
			v.SetUint(uv())
		}
	case reflect.Float32:
		if !o.unsafe {
			return v, errors.New("not tagged unsafe")
		}
		v.SetFloat(float64(math.Float32frombits(uint32(le(4)))))
	case reflect.Float64:
		if !o.unsafe {
			return v, errors.New("not tagged unsafe")
		}
		v.SetFloat(math.Float64frombits(le(8)))
	case reflect.String:
		v.SetString(string(b))
	case reflect.Slice, reflect.Array:
		if byteList(rt) {
			if rt.Kind() == reflect.Array {
				if len(b) != rt.Len() {
					return v, errors.New("bad length of an array")
				}
				for i, x := range b {
					v.Index(i).SetUint(uint64(x))
				}
			} else if len(b) > 0 {
				s := reflect.MakeSlice(rt, len(b), len(b))
				for i, x := range b {
					s.Index(i).SetUint(uint64(x))
				}
				v.Set(s)
			}
			break
		}
		et := bottom(rt.Elem())
		var es []reflect.Value
		if w := wireType(et, o); w != 2 {
			// Packed.
			for len(b) > 0 {
				n := 8
				switch {
				case w == 5:
					n = 4
				case et.Kind() == reflect.Bool:
					n = 1
				case w == 0:
					if _, n = binary.Uvarint(b); n <= 0 {
						return v, errors.New("bad varint")
					}
				}
				if n > len(b) {
					return v, errors.New("cut")
				}
				e, err := m.contents(et, b[:n], o, depth+1)
				if err != nil {
					return v, err
				}
				es = append(es, wrap(rt.Elem(), e))
				b = b[n:]
			}
		} else {
			cs, err := cells(b)
			if err != nil {
				return v, err
			}
			if es, err = m.elements(rt, cs, o.num, o, depth); err != nil {
				return v, err
			}
		}
		return v, fillList(v, es)
	case reflect.Struct:
		if rt == rtTime {
			t, err := m.time(b)
			if err == nil {
				v.Set(reflect.ValueOf(t))
			}
			return v, err
		}
		return v, m.structure(v, b, depth)
	case reflect.Interface:
		return m.iface(rt, b, o, false)
	default:
		return v, errUnknown
	}
	return v, err
}

// elements decodes the elements of an unpacked list.
func (m *model) elements(rt reflect.Type, cs []cell, num int, o mopts, depth int) (es []reflect.Value, err error) {
	ert := rt.Elem()
	et := bottom(ert)
	eo := o
	eo.num = 1
	structPtr := ert.Kind() == reflect.Ptr && et.Kind() == reflect.Struct
	for _, c := range cs {
		if c.num != uint64(num) || c.typ != 2 {
			return nil, fmt.Errorf("field %d of wire type %d among elements", c.num, c.typ)
		}
		if c.zero && !(structPtr && o.empties) {
			es = append(es, m.missing(ert))
			continue
		}
		e, err := m.field(ert, c, num, eo, depth+1)
		if err != nil {
			return nil, err
		}
		es = append(es, e)
	}
	return es, nil
}

func fillList(v reflect.Value, es []reflect.Value) error {
	if v.Kind() == reflect.Array {
		if len(es) != v.Len() {
			return fmt.Errorf("%d elements for %d", len(es), v.Len())
		}
	} else if len(es) > 0 {
		v.Set(reflect.MakeSlice(v.Type(), len(es), len(es)))
	}
	for i, e := range es {
		v.Index(i).Set(e)
	}
	return nil
}

func (m *model) time(b []byte) (t time.Time, err error) {
	cs, err := cells(b)
	if err != nil {
		return t, err
	}
	var s, ns uint64
	last := uint64(0)
	for _, c := range cs {
		if c.typ != 0 || c.num <= last || c.num > 2 {
			return t, errors.New("not a time")
		}
		last = c.num
		x, _ := binary.Uvarint(c.body)
		if c.num == 1 {
			s = x
		} else {
			ns = x
		}
	}
	if int64(s) < -62135596800 || int64(s) >= 253402300800 || ns > 999999999 {
		return t, errors.New("out of range")
	}
	return time.Unix(int64(s), int64(ns)).UTC(), nil
}

// structure decodes the fields of a struct.
func (m *model) structure(v reflect.Value, b []byte, depth int) error {
	rt := v.Type()
	cs, err := cells(b)
	if err != nil {
		return err
	}
	num := 0
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if f.PkgPath != "" || f.Tag.Get("json") == "-" {
			continue
		}
		num++
		o := optsOf(f.Tag)
		o.num = num
		var mine []cell
		for len(cs) > 0 && cs[0].num == uint64(num) {
			mine = append(mine, cs[0])
			cs = cs[1:]
		}
		unpacked := isList(f.Type) && wireType(bottom(f.Type.Elem()), o) == 2
		switch {
		case unpacked && (len(mine) > 0 || f.Type.Kind() == reflect.Array && len(cs) > 0):
			es, err := m.elements(f.Type, mine, num, o, depth)
			if err != nil {
				return err
			}
			if err := fillList(v.Field(i), es); err != nil {
				return err
			}
		case len(mine) == 0:
			v.Field(i).Set(m.missing(f.Type))
		case len(mine) > 1:
			return fmt.Errorf("field %d comes twice", num)
		default:
			e, err := m.field(f.Type, mine[0], num, o, depth+1)
			if err != nil {
				return err
			}
			v.Field(i).Set(e)
		}
	}
	// The rest is unknown, in order.
	last := uint64(num)
	for _, c := range cs {
		if c.num < last || c.num == last && c.typ != 2 || c.num <= uint64(num) {
			return fmt.Errorf("field %d after %d", c.num, last)
		}
		last = c.num
	}
	return nil
}

// iface decodes an interface's value from all of its bytes.
func (m *model) iface(rt reflect.Type, b []byte, o mopts, top bool) (v reflect.Value, err error) {
	v = reflect.New(rt).Elem()
	if len(b) == 0 && !top {
		return v, nil
	}
	if len(b) == 1 && b[0] == 0 {
		return v, errUnknown // nil, if it is not a field or element
	}
	if len(b) < 4 {
		return v, errors.New("no prefix bytes")
	}
	var found []*mconc
	if b[0] == 0 {
		if len(b) < 8 {
			return v, errors.New("no prefix bytes")
		}
		for _, c := range m.concs {
			if string(b[1:4]) == string(c.disamb[:]) && string(b[4:8]) == string(c.prefix[:]) {
				found = append(found, c)
			}
		}
		b = b[8:]
	} else {
		for _, c := range m.concs {
			if string(b[:4]) == string(c.prefix[:]) && reflect.PtrTo(c.rt).Implements(rt) {
				found = append(found, c)
			}
		}
		b = b[4:]
	}
	if len(found) == 0 {
		return v, errUnknown // someone may have registered it since
	}
	if len(found) > 1 {
		return v, errors.New("ambiguous")
	}
	c := found[0]
	if !reflect.PtrTo(c.rt).Implements(rt) {
		return v, fmt.Errorf("%v does not implement %v", c.rt, rt)
	}
	var x reflect.Value
	if top {
		x, err = m.top(c.rt, b)
	} else {
		x, err = m.held(c.rt, b, o)
	}
	if err != nil {
		return v, err
	}
	if c.ptr || !c.rt.Implements(rt) {
		x = wrap(reflect.PtrTo(c.rt), x)
	}
	v.Set(x)
	return v, nil
}

// held decodes what an interface within a message holds: it has no key.
func (m *model) held(rt reflect.Type, b []byte, o mopts) (v reflect.Value, err error) {
	if rt.Kind() == reflect.Struct || isList(rt) {
		return m.contents(rt, b, o, 1)
	}
	if wireType(rt, mopts{}) == 2 {
		if len(b) == 0 && rt.Kind() == reflect.Slice {
			return reflect.Zero(rt), nil
		}
		l, n := binary.Uvarint(b)
		if n <= 0 || l != uint64(len(b)-n) {
			return v, errors.New("bad length")
		}
		b = b[n:]
	}
	return m.contents(rt, b, o, 1)
}

// guarded calls the model; user code in it may panic.
func guarded(f func() (reflect.Value, error)) (v reflect.Value, err error) {
	defer func() {
		if p := recover(); p != nil {
			if !strings.Contains(fmt.Sprint(p), uni.UserPanic) {
				panic(p)
			}
			err = errUnknown
		}
	}()
	return f()
}

// refine checks a successful binary decode against the model.
func (r *Run) refine(o *sys.Op, got sys.Result, m *model, how string) {
	if r.Failed() || got.Class != "ok" {
		return
	}
	if o.Kind.IsJSON() {
		r.refineJSON(o, got, m, how)
		return
	}
	b := o.Data
	if o.Kind != sys.UBare && o.Kind != sys.MustUBare {
		l, n := binary.Uvarint(b)
		if n < 0 || l > uint64(len(b)-n) || l < uint64(len(b)-n) && o.Kind != sys.ULPReader {
			r.Fail("accepted", "%v, %s, was accepted, though %d bytes follow a prefix of %d: %v", o, how, len(b)-n, l, got)
			return
		}
		b = b[n:][:l]
	}
	Checked()
	v, err := guarded(func() (reflect.Value, error) { return m.Bare(o.Type.RT, b) })
	if err == errUnknown {
		return
	}
	if err != nil {
		r.Fail("accepted", "%v, %s, was accepted: %v\n but %v", o, how, got, err)
		return
	}
	if a, b := uni.CanonV(got.Value.Elem()), uni.CanonV(wrap(o.Type.RT, v)); a != b {
		r.Fail("misread", "%v, %s, gave\n %s, but it says\n %s", o, how, clip(a, 800), clip(b, 800))
	}
}
