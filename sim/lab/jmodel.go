package lab

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"amsim/sys"
	"amsim/uni"
)

// The reference model of the JSON decoder.

// JSON decodes a top-level text.
func (m *model) JSON(rt reflect.Type, b []byte) (v reflect.Value, err error) {
	if isLate(rt) {
		return v, errUnknown
	}
	if c := m.conc(rt); c != nil {
		n, d, err := unwrap(b)
		if err != nil {
			return v, err
		}
		if n != c.name {
			return v, fmt.Errorf("type %q for %q", n, c.name)
		}
		b = d
	}
	return m.jval(rt, b, mopts{})
}

func unwrap(b []byte) (string, []byte, error) {
	var w struct {
		Type  string
		Value json.RawMessage
	}
	if err := json.Unmarshal(b, &w); err != nil {
		return "", nil, err
	}
	if w.Type == "" || len(w.Value) == 0 {
		return "", nil, errors.New("no type or value")
	}
	return w.Type, w.Value, nil
}

func (m *model) jval(rt reflect.Type, b []byte, o mopts) (v reflect.Value, err error) {
	s := strings.Trim(string(b), " \t\r\n")
	if s == "null" {
		return reflect.Zero(rt), nil
	}
	if rt.Kind() == reflect.Ptr {
		v, err = m.jval(bottom(rt), b, o)
		return wrap(rt, v), err
	}
	v = reflect.New(rt).Elem()
	text := func() string {
		var x string
		if len(s) < 2 || s[0] != '"' {
			err = errors.New("no string")
		} else if e := json.Unmarshal([]byte(s), &x); e != nil {
			err = e
		}
		return x
	}
	list := func() (l []json.RawMessage) {
		if e := json.Unmarshal(b, &l); e != nil {
			err = e
		}
		return
	}
	if rt == rtTime {
		x := text()
		if err != nil {
			return v, err
		}
		t, err := time.Parse(time.RFC3339, x)
		if err != nil || !strings.HasSuffix(x, "Z") {
			return v, errors.New("no UTC time")
		}
		v.Set(reflect.ValueOf(t))
		return v, nil
	}
	if rt.Kind() != reflect.Interface {
		if u, ok := v.Addr().Interface().(json.Unmarshaler); ok {
			return v, u.UnmarshalJSON(b)
		}
		if um, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); ok {
			in := um.Type.In(1)
			r, err := m.jval(in, b, o)
			if err != nil {
				return v, err
			}
			out := v.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{r})
			if e := out[0].Interface(); e != nil {
				return v, e.(error)
			}
			return v, nil
		}
	}
	switch rt.Kind() {
	case reflect.Interface:
		n, d, err := unwrap(b)
		if err != nil {
			return v, err
		}
		for _, c := range m.concs {
			if c.name != n {
				continue
			}
			if !reflect.PtrTo(c.rt).Implements(rt) {
				return v, fmt.Errorf("%v does not implement %v", c.rt, rt)
			}
			x, err := m.jval(c.rt, d, o)
			if err != nil {
				return v, err
			}
			if c.ptr || !c.rt.Implements(rt) {
				x = wrap(reflect.PtrTo(c.rt), x)
			}
			v.Set(x)
			return v, nil
		}
		return v, errUnknown
	case reflect.Bool:
		v.SetBool(s == "true")
		if s != "true" && s != "false" {
			err = errors.New("no bool")
		}
	case reflect.String:
		v.SetString(text())
	case reflect.Int64, reflect.Int:
		var x int64
		if t := text(); err == nil {
			x, err = strconv.ParseInt(t, 10, 64)
		}
		v.SetInt(x)
	case reflect.Uint64, reflect.Uint:
		var x uint64
		if t := text(); err == nil {
			x, err = strconv.ParseUint(t, 10, 64)
		}
		v.SetUint(x)
	case reflect.Int8, reflect.Int16, reflect.Int32:
		var x int64
		x, err = strconv.ParseInt(s, 10, rt.Bits())
		v.SetInt(x)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		var x uint64
		x, err = strconv.ParseUint(s, 10, rt.Bits())
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		if !o.unsafe {
			return v, errors.New("not tagged unsafe")
		}
		var x float64
		x, err = strconv.ParseFloat(s, rt.Bits())
		v.SetFloat(x)
	case reflect.Slice, reflect.Array:
		if byteList(rt) {
			var x []byte
			if err := json.Unmarshal(b, &x); err != nil {
				return v, err
			}
			if rt.Kind() == reflect.Array && len(x) != rt.Len() {
				return v, errors.New("bad length of an array")
			}
			if rt.Kind() == reflect.Slice && len(x) > 0 {
				v.Set(reflect.MakeSlice(rt, len(x), len(x)))
			}
			for i, c := range x {
				v.Index(i).SetUint(uint64(c))
			}
			break
		}
		l := list()
		if err != nil {
			return v, err
		}
		var es []reflect.Value
		for _, x := range l {
			e, err := m.jval(rt.Elem(), x, o)
			if err != nil {
				return v, err
			}
			es = append(es, e)
		}
		err = fillList(v, es)
	case reflect.Struct:
		var x map[string]json.RawMessage
		if err := json.Unmarshal(b, &x); err != nil {
			return v, err
		}
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				continue
			}
			name := strings.Split(f.Tag.Get("json"), ",")[0]
			if name == "" {
				name = f.Name
			}
			if d, ok := x[name]; ok {
				e, err := m.jval(f.Type, d, optsOf(f.Tag))
				if err != nil {
					return v, err
				}
				v.Field(i).Set(e)
			}
		}
	case reflect.Map:
		var x map[string]json.RawMessage
		if err := json.Unmarshal(b, &x); err != nil {
			return v, err
		}
		v.Set(reflect.MakeMap(rt))
		for k, d := range x {
			e, err := m.jval(rt.Elem(), d, o)
			if err != nil {
				return v, err
			}
			kv := reflect.New(rt.Key()).Elem()
			kv.SetString(k)
			v.SetMapIndex(kv, e)
		}
	default:
		return v, errUnknown
	}
	return v, err
}

// refineJSON checks a successful decode against the model.
func (r *Run) refineJSON(o *sys.Op, got sys.Result, m *model, how string) {
	if r.Failed() || got.Class != "ok" {
		return
	}
	Checked()
	v, err := guarded(func() (reflect.Value, error) { return m.JSON(o.Type.RT, o.Data) })
	if err == errUnknown {
		return
	}
	if err != nil {
		r.Fail("accepted", "%v, %s, was accepted: %v\n but %v", o, how, got, err)
		return
	}
	if a, b := uni.DumpV(got.Value.Elem()), uni.DumpV(v); a != b {
		r.Fail("misread", "%v, %s, gave\n %s, but it says\n %s", o, how, clip(a, 800), clip(b, 800))
	}
}
