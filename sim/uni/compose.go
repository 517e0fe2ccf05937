package uni

import (
	"reflect"
	"time"

	"amsim/simrt"
)

// Types composed on the spot: pointers, slices, arrays and structs around the
// basic and named types, nested in ways no declared type of the universe is.

var composeBases = []reflect.Type{}

func init() {
	for _, x := range []interface{}{int64(0), int8(0), uint32(0), int(0), "", true, int16(0), uint16(0), int32(0), uint64(0), uint8(0), []byte{}, [4]byte{}, Leaf{}, Empty{}, time.Time{}, ConvStr(""), Priv{}, NamedInt(0), NamedBytes{}, Hash{}, Leaves{}, Ints{}, Conv{}, Holder{}, ConvBytes{}, ConvArr{}, Label(""), Nums{}, Count(0), Digest{}, Blob{}, NamedByte(0), ByteList{}} {
		composeBases = append(composeBases, reflect.TypeOf(x))
	}
	composeBases = append(composeBases, rt((*Shape)(nil)), rt((*Node)(nil)))
}

func compose(t *simrt.Tape, depth int) reflect.Type {
	k := 7
	if depth > 0 {
		k = t.Draw(8)
	}
	switch k {
	case 0, 1:
		return reflect.PtrTo(compose(t, depth-1))
	case 2, 3:
		return reflect.SliceOf(compose(t, depth-1))
	case 4:
		return reflect.ArrayOf(1+t.Draw(3), compose(t, depth-1))
	case 5:
		var fs []reflect.StructField
		for i, n := 0, 1+t.Draw(3); i < n; i++ {
			f := reflect.StructField{Name: string(rune('A' + i))}
			if t.Chance(1, 4) {
				var tag string
				f.Type, tag = FieldType(t)
				f.Tag = reflect.StructTag(tag)
			} else {
				f.Type = compose(t, depth-1)
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	return composeBases[t.Draw(len(composeBases))]
}

// Compose makes a supported type.
func Compose(t *simrt.Tape, depth int) *Type {
	r := compose(t, depth)
	for r.Kind() == reflect.Ptr {
		r = r.Elem()
	}
	if r.Kind() == reflect.Interface || !supported(r, false) {
		// Wrapped in a struct, lists of lists may be supported.
		r = reflect.StructOf([]reflect.StructField{{Name: "A", Type: r}})
		if !supported(r, false) {
			r = reflect.TypeOf(Leaf{})
		}
	}
	return &Type{Name: r.String(), RT: r, Bin: true, JSON: true, Copy: true, Iface: hasIface(r), Weight: 1}
}

func listOf(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() != reflect.Uint8
}

// supported tells whether the library takes values of the type: no pointer leads
// to an interface, and lists hold no lists, except of bytes, and except in the
// fields of structs, one level.
func supported(t reflect.Type, field bool) bool {
	if t == timeType || t.PkgPath() != "" && t.Kind() == reflect.Struct {
		return true // declared in the universe
	}
	switch t.Kind() {
	case reflect.Ptr:
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		return t.Kind() != reflect.Interface && supported(t, false)
	case reflect.Slice, reflect.Array:
		if !listOf(t) {
			return true
		}
		e := t.Elem()
		if !field && (e.Kind() == reflect.Slice || e.Kind() == reflect.Array) {
			for e.Kind() == reflect.Slice || e.Kind() == reflect.Array {
				e = e.Elem()
			}
			return e.Kind() == reflect.Uint8
		}
		return supported(e, false)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !supported(f.Type, f.Type.Kind() != reflect.Ptr) {
				return false
			}
		}
	}
	return true
}

func hasIface(t reflect.Type) bool {
	if t == timeType {
		return false
	}
	switch t.Kind() {
	case reflect.Interface:
		return true
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasIface(t.Elem())
	case reflect.Struct:
		if t == reflect.TypeOf(Holder{}) {
			return true
		}
		for i := 0; i < t.NumField() && t.PkgPath() == ""; i++ {
			if hasIface(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}
