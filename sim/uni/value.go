package uni

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// open returns v with its read-only flag removed (v must be addressable if it
// was obtained through an unexported field).
func open(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func addressable(v reflect.Value) reflect.Value {
	if !v.IsValid() || v.CanAddr() {
		return v
	}
	p := reflect.New(v.Type()).Elem()
	p.Set(v)
	return p
}

// Dump renders everything that can be observed of a value, except addresses.
func Dump(v interface{}) string {
	if v == nil {
		return "<nil>"
	}
	return DumpV(reflect.ValueOf(v))
}

func DumpV(v reflect.Value) string {
	var b strings.Builder
	dump(&b, addressable(v), 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("<nil>")
		return
	}
	if depth > 2000 {
		b.WriteString("…")
		return
	}
	v = open(v)
	rt := v.Type()
	if rt == timeType {
		t := v.Interface().(time.Time)
		b.WriteString("t")
		b.WriteString(strconv.FormatInt(t.Unix(), 10))
		b.WriteByte('.')
		b.WriteString(strconv.Itoa(t.Nanosecond()))
		b.WriteString(t.Location().String())
		return
	}
	switch rt.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dump(b, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("inil")
			return
		}
		b.WriteByte('(')
		b.WriteString(v.Elem().Type().String())
		b.WriteByte(')')
		dump(b, addressable(v.Elem()), depth+1)
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("snil")
			return
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x.", v.Bytes())
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Array:
		b.WriteByte('<')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('>')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("mnil")
			return
		}
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(&e, addressable(k), depth+1)
			e.WriteByte(':')
			dump(&e, addressable(v.MapIndex(k)), depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString("map[")
		b.WriteString(strings.Join(es, " "))
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Float32, reflect.Float64:
		b.WriteByte('f')
		b.WriteString(strconv.FormatUint(math.Float64bits(v.Float()), 16))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	case reflect.Chan, reflect.Func:
		if v.IsNil() {
			b.WriteString("nil" + rt.Kind().String())
		} else {
			b.WriteString(rt.Kind().String())
		}
	default:
		b.WriteString("?" + rt.String())
	}
}

// Canon renders what the binary encoding of a value carries: two values with the
// same rendering are equal for a caller who sends one and receives the other.
// It is derived from the published encoding: defaults are not transmitted, nil
// and empty lists are the same, so are a nil pointer and a pointer to a default
// scalar or list, and within lists a nil pointer and a pointer to an empty struct.
func Canon(v interface{}) string { return CanonV(reflect.ValueOf(v)) }

func CanonV(v reflect.Value) string {
	var b strings.Builder
	canon(&b, addressable(v), "", false)
	return b.String()
}

func repr(v reflect.Value) (reflect.Value, bool) {
	m := v.MethodByName("MarshalAmino")
	if !m.IsValid() {
		return v, false
	}
	switch x := v.Interface().(type) {
	case Conv:
		return addressable(reflect.ValueOf(ConvRepr{x.Text, x.N, x.L, x.P})), true
	case ConvStr:
		return addressable(reflect.ValueOf("<" + string(x))), true
	case ConvBytes:
		return addressable(reflect.ValueOf([]byte(x))), true
	case Priv:
		return addressable(reflect.ValueOf(PrivRepr{x.n, x.l})), true
	}
	return v, false
}

func deref(v reflect.Value) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, true
}

func canon(b *strings.Builder, v reflect.Value, tag reflect.StructTag, elem bool) {
	if !v.IsValid() {
		b.WriteString("_")
		return
	}
	v = open(v)
	rt := v.Type()
	if rt == timeType {
		t := v.Interface().(time.Time)
		fmt.Fprintf(b, "t%d.%d", t.Unix(), t.Nanosecond())
		return
	}
	if rt.Kind() != reflect.Ptr && rt.Kind() != reflect.Interface {
		if r, ok := repr(v); ok {
			canon(b, r, tag, elem)
			return
		}
	}
	switch rt.Kind() {
	case reflect.Ptr:
		et := rt.Elem()
		for et.Kind() == reflect.Ptr {
			et = et.Elem()
		}
		d, ok := deref(v)
		if !ok {
			if et == timeType {
				b.WriteString("t0.0")
				return
			}
			if elem {
				// In a list: as the default value of what it points to.
				canonDefault(b, et)
				return
			}
			switch et.Kind() {
			case reflect.Struct, reflect.Array:
				b.WriteString("_")
			default:
				// A pointer to the default value.
				canonDefault(b, et)
			}
			return
		}
		if et == timeType {
			canon(b, d, "", false)
			return
		}
		if elem && emptyEnc(d, tag) {
			canonDefault(b, et)
			return
		}
		canon(b, d, tag, false)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("_")
			return
		}
		d, ok := deref(v.Elem())
		if !ok {
			b.WriteString("_")
			return
		}
		b.WriteByte('(')
		b.WriteString(d.Type().String())
		b.WriteByte(')')
		canon(b, addressable(d), "", false)
	case reflect.Slice, reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			b.WriteByte('x')
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(b, "%02x", v.Index(i).Uint())
			}
			b.WriteByte('.')
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			canon(b, v.Index(i), tag, true)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				continue
			}
			canon(b, v.Field(i), f.Tag, false)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Map:
		b.WriteString(DumpV(v))
	default:
		dump(b, v, 0)
	}
}

func canonDefault(b *strings.Builder, et reflect.Type) {
	if et.Kind() == reflect.Struct && et != timeType {
		b.WriteString("_")
		return
	}
	canon(b, reflect.New(et).Elem(), "", false)
}

// EmptyEnc tells whether a value's encoding is empty.
func EmptyEnc(v reflect.Value) bool { return emptyEnc(addressable(v), "") }

// emptyEnc tells whether a value's encoding is empty (as a list element or field).
func emptyEnc(v reflect.Value, tag reflect.StructTag) bool {
	v = open(v)
	rt := v.Type()
	if rt == timeType {
		t := v.Interface().(time.Time)
		return t.Unix() == 0 && t.Nanosecond() == 0
	}
	if rt.Kind() != reflect.Ptr && rt.Kind() != reflect.Interface {
		if r, ok := repr(v); ok {
			return emptyEnc(r, tag)
		}
	}
	switch rt.Kind() {
	case reflect.Ptr:
		d, ok := deref(v)
		if !ok {
			return true
		}
		if t, ok := d.Interface().(time.Time); ok {
			// What a missing pointer to a time is decoded to.
			return t.Unix() == 0 && t.Nanosecond() == 0
		}
		switch d.Kind() {
		case reflect.Struct, reflect.Array, reflect.Bool:
			return false
		}
		return emptyEnc(d, tag)
	case reflect.Interface:
		return v.IsNil()
	case reflect.Slice:
		return v.Len() == 0
	case reflect.Array:
		return v.Len() == 0
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				continue
			}
			if fv := v.Field(i); fv.Kind() == reflect.String && fv.Len() == 0 && !strings.Contains(f.Tag.Get("amino"), "write_empty") {
				continue // left out, whatever its representation
			}
			if strings.Contains(f.Tag.Get("amino"), "write_empty") || !emptyEnc(v.Field(i), f.Tag) {
				return false
			}
		}
		return true
	case reflect.Map:
		return v.Len() == 0
	case reflect.Float32, reflect.Float64:
		return false
	}
	return v.IsZero()
}

// Clone copies a value deeply, without using the library.
func Clone(v reflect.Value) reflect.Value {
	v = addressable(v)
	c := reflect.New(v.Type()).Elem()
	clone(c, v)
	return c
}

func clone(dst, src reflect.Value) {
	dst, src = open(dst), open(src)
	rt := src.Type()
	switch rt.Kind() {
	case reflect.Ptr:
		if rt.Elem().PkgPath() == "time" && rt.Elem().Name() == "Location" {
			dst.Set(src)
			return
		}
		if !src.IsNil() {
			p := reflect.New(rt.Elem())
			clone(p.Elem(), src.Elem())
			dst.Set(p)
		}
	case reflect.Interface:
		if !src.IsNil() {
			dst.Set(Clone(src.Elem()))
		}
	case reflect.Slice:
		if !src.IsNil() {
			s := reflect.MakeSlice(rt, src.Len(), src.Len())
			for i := 0; i < src.Len(); i++ {
				clone(s.Index(i), src.Index(i))
			}
			dst.Set(s)
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			clone(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if !src.IsNil() {
			m := reflect.MakeMap(rt)
			for _, k := range src.MapKeys() {
				m.SetMapIndex(k, Clone(src.MapIndex(k)))
			}
			dst.Set(m)
		}
	case reflect.Struct:
		if rt == timeType {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			clone(dst.Field(i), src.Field(i))
		}
	default:
		dst.Set(src)
	}
}

// Span is a piece of memory.
type Span struct {
	Lo, Hi uintptr
	What   string
}

// Spans lists the memory reachable from a value (not that of the variable
// itself): what pointers point to, the arrays behind slices, maps; and what
// strings consist of if strs is set.
func Spans(v reflect.Value, strs bool) []Span {
	var out []Span
	seen := map[uintptr]bool{}
	spans(&out, seen, addressable(v), strs, "")
	return out
}

func spans(out *[]Span, seen map[uintptr]bool, v reflect.Value, strs bool, path string) {
	if !v.IsValid() {
		return
	}
	v = open(v)
	rt := v.Type()
	add := func(p uintptr, n uintptr) {
		if n > 0 && p != 0 {
			*out = append(*out, Span{p, p + n, path + " (" + rt.String() + ")"})
		}
	}
	switch rt.Kind() {
	case reflect.Ptr:
		if rt.Elem().PkgPath() == "time" && rt.Elem().Name() == "Location" {
			return
		}
		if v.IsNil() {
			return
		}
		add(v.Pointer(), rt.Elem().Size())
		spans(out, seen, v.Elem(), strs, path+"*")
	case reflect.Interface:
		if !v.IsNil() {
			spans(out, seen, addressable(v.Elem()), strs, path+".("+v.Elem().Type().String()+")")
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		add(v.Pointer(), rt.Elem().Size()*uintptr(v.Cap()))
		if hasRefs(rt.Elem()) {
			for i := 0; i < v.Len(); i++ {
				spans(out, seen, v.Index(i), strs, path+"[]")
			}
		}
	case reflect.Array:
		if hasRefs(rt.Elem()) {
			for i := 0; i < v.Len(); i++ {
				spans(out, seen, v.Index(i), strs, path+"[]")
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		add(v.Pointer(), 1)
		for _, k := range v.MapKeys() {
			spans(out, seen, addressable(k), strs, path+"[key]")
			spans(out, seen, addressable(v.MapIndex(k)), strs, path+"["+k.String()+"]")
		}
	case reflect.Struct:
		if rt == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			spans(out, seen, v.Field(i), strs, path+"."+rt.Field(i).Name)
		}
	case reflect.String:
		if strs && v.Len() > 0 {
			s := v.String()
			add(uintptr(unsafe.Pointer(unsafe.StringData(s))), uintptr(len(s)))
		}
	}
}

func hasRefs(rt reflect.Type) bool {
	switch rt.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.String, reflect.Struct, reflect.Array:
		return true
	}
	return false
}

// BufSpan is the memory of a byte slice, with its capacity.
func BufSpan(b []byte, what string) []Span {
	if cap(b) == 0 {
		return nil
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return []Span{{p, p + uintptr(cap(b)), what}}
}

// Overlap finds memory the two lists share.
func Overlap(a, b []Span) (string, bool) {
	a = append([]Span(nil), a...)
	b = append([]Span(nil), b...)
	sort.Slice(a, func(i, j int) bool { return a[i].Lo < a[j].Lo })
	sort.Slice(b, func(i, j int) bool { return b[i].Lo < b[j].Lo })
	// Quadratic in the worst case only; the lists are short.
	for _, x := range a {
		for _, y := range b {
			if y.Lo >= x.Hi {
				break
			}
			if x.Lo < y.Hi && y.Lo < x.Hi {
				return x.What + " and " + y.What, true
			}
		}
	}
	return "", false
}

// Scribble overwrites all memory reachable from a value (not the variable), in
// place: bytes, numbers, strings, elements of maps.
func Scribble(v reflect.Value) { scribble(addressable(v), false, 0) }

// ScribbleAll also overwrites the variable itself.
func ScribbleAll(v reflect.Value) { scribble(v, true, 0) }

func scribble(v reflect.Value, own bool, depth int) {
	if !v.IsValid() || depth > 200 {
		return
	}
	v = open(v)
	rt := v.Type()
	switch rt.Kind() {
	case reflect.Ptr:
		if rt.Elem().PkgPath() == "time" && rt.Elem().Name() == "Location" {
			return
		}
		if !v.IsNil() {
			scribble(v.Elem(), true, depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(addressable(v.Elem()), false, depth+1)
		}
	case reflect.Slice:
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i), true, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), own, depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(rt.Elem()).Elem()
			e.Set(v.MapIndex(k))
			scribble(e, true, depth+1)
			v.SetMapIndex(k, e)
		}
		if !v.IsNil() {
			k := reflect.New(rt.Key()).Elem()
			k.SetString("scribbled")
			v.SetMapIndex(k, reflect.New(rt.Elem()).Elem())
		}
	case reflect.Struct:
		if rt == timeType {
			if own && v.CanSet() {
				v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(-time.Second)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), own, depth+1)
		}
	default:
		if !own || !v.CanSet() {
			return
		}
		switch rt.Kind() {
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(^v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(^v.Uint() & (1<<uint(rt.Bits()) - 1))
		case reflect.Float32, reflect.Float64:
			v.SetFloat(v.Float() + 1)
		case reflect.String:
			v.SetString(v.String() + "#")
		}
	}
}
