package lab

import (
	"fmt"
	"reflect"
	"strings"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// The reuse world (C20): consumers decode message after message, good and bad,
// into one variable each.

// setIfaces tells whether any interface within a value is set.
func setIfaces(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && setIfaces(v.Elem())
	case reflect.Interface:
		return !v.IsNil()
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if setIfaces(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if setIfaces(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// omits tells whether the JSON form of a type may leave out fields, which then
// keep what they held.
func omits(rt reflect.Type, depth int) bool {
	switch rt.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return depth < 10 && omits(rt.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < rt.NumField() && depth < 10; i++ {
			f := rt.Field(i)
			if strings.Contains(f.Tag.Get("json"), ",omitempty") || f.PkgPath == "" && omits(f.Type, depth+1) {
				return true
			}
		}
	}
	return false
}

// keptSlice is a slice taken out of a destination.
type keptSlice struct {
	v     reflect.Value
	state string
	path  string
}

// slicesOf copies the headers of all slices in a value.
func slicesOf(out []keptSlice, v reflect.Value, path string) []keptSlice {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			out = slicesOf(out, v.Elem(), path+"*")
		}
	case reflect.Slice:
		if v.Len() == 0 || !v.CanInterface() {
			return out
		}
		h := reflect.New(v.Type()).Elem()
		h.Set(v)
		out = append(out, keptSlice{h, uni.DumpV(h), path})
		fallthrough
	case reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Slice, reflect.Struct, reflect.Ptr, reflect.Array, reflect.Interface:
			for i := 0; i < v.Len(); i++ {
				out = slicesOf(out, v.Index(i), path+"[]")
			}
		}
	case reflect.Struct:
		if v.Type() == uni.Get("time.Time").RT {
			return out
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out = slicesOf(out, v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		}
	}
	return out
}

func reuseWorld(r *Run) {
	w := r.Work
	cfg := r.newCfg()
	c := cfg.Apply(sys.New())
	ref := cfg.Apply(sys.Ref())
	dyn := r.dynTypes()
	type consumer struct {
		t    *uni.Type
		ops  []*sys.Op
		want []sys.Result
		dst  reflect.Value
	}
	var cs []*consumer
	for i := 1 + w.Draw(3); i > 0; i-- {
		k := &consumer{}
		if len(dyn) > 0 && w.Chance(1, 4) {
			k.t = dyn[w.Draw(len(dyn))]
		} else {
			k.t = uni.PickType(w, func(t *uni.Type) bool { return t.Bin || t.JSON })
		}
		json := k.t.JSON && !omits(k.t.RT, 0) && (!k.t.Bin || w.Chance(1, 3))
		if !json && !k.t.Bin {
			k.t = uni.Get("Lists")
		}
		k.dst = reflect.New(k.t.RT)
		if w.Chance(1, 4) {
			// The variable holds a value made by the program.
			g := &uni.Gen{T: w, Concs: cfg.Concs(), Size: 30}
			k.dst.Elem().Set(g.Value(k.t.RT))
		}
		var prev []byte
		for j := 2 + w.Draw(7); j > 0; j-- {
			g := &uni.Gen{T: w, Concs: cfg.Concs(), JSON: json, Modes: "EY", Rate: 6, Size: []int{20, 4, 60}[w.Pick(4, 3, 1)]}
			e := &sys.Op{Kind: []sys.Kind{sys.Bare, sys.LP}[w.Draw(2)], Type: k.t, Val: g.Value(k.t.RT)}
			if json {
				e.Kind = sys.JSON
			}
			if w.Chance(1, 8) {
				e.Val = reflect.New(k.t.RT).Elem()
			}
			res := e.Run(ref, nil, sys.PlainIO{})
			if res.Class != "ok" {
				continue
			}
			data := res.Bytes
			if w.Chance(1, 4) {
				data = Corrupt(w, data, json)
			} else if w.Chance(1, 8) && prev != nil {
				data = append([]byte(nil), prev...)
			} else if w.Chance(1, 10) {
				data = nil
			}
			prev = data
			d := &sys.Op{Kind: sys.DecKind(w, e.Kind), Type: k.t, Data: data}
			k.ops = append(k.ops, d)
			k.want = append(k.want, d.Run(ref, nil, sys.PlainIO{}))
		}
		cs = append(cs, k)
	}
	r.Sim(func(s *simrt.Sim) {
		for i, k := range cs {
			k := k
			r.Spawn(s, fmt.Sprintf("consumer%d", i), 0, func(*simrt.Task) {
				var kept []keptSlice
				for j, op := range k.ops {
					if r.Failed() {
						return
					}
					before := uni.DumpV(k.dst.Elem())
					dirty := setIfaces(k.dst.Elem())
					Inject(FStaleDest)
					if len(kept) < 200 {
						kept = slicesOf(kept, k.dst.Elem(), "dst")
					}
					buf := append([]byte(nil), op.Data...)
					o := *op
					o.Data = buf
					CountOp()
					r.Log("decode %d into %s: %v", j, clip(before, 500), &o)
					got := o.RunInto(c, nil, sys.PlainIO{}, k.dst)
					r.Log("result %v", got)
					fillBytes(buf, 0xEE)
					want := k.want[j]
					if o.Kind == sys.MustUBare || o.Kind == sys.MustULP || o.Kind == sys.MustUJSON {
						// Reports its errors by panicking.
						if got.Class == "panic" {
							got.Class = "err"
						}
						if want.Class == "panic" {
							want.Class = "err"
						}
					}
					Checked()
					r.Note(got.Class)
					r.Note(got.Val)
					bad := func(class, what string) {
						r.Fail(class, "%v into a variable that held\n  %s\n%s: it gave\n  %v\n and gives in a fresh variable\n  %v\n after %d decodes", op, clip(before, 1000), what, got, want, j)
					}
					switch {
					case got.Class == "ok" && want.Class == "ok":
						if got.Val != want.Val {
							bad("stale", "stale contents survive")
						}
					case got.Class == "ok":
						bad("accepted", "an input to be refused was accepted")
					case got.Class == "panic" && want.Class != "panic":
						bad("panic", "it panicked")
					case want.Class == "ok" && !dirty:
						bad("refused", "a good message was refused although no interface was set")
					}
					for _, x := range kept {
						Checked()
						if d := uni.DumpV(x.v); d != x.state {
							r.Fail("kept-changed", "%v into a variable that held\n  %s\n changed a slice taken from %s earlier:\n from %s\n to %s", op, clip(before, 1000), x.path, clip(x.state, 500), clip(d, 500))
						}
					}
				}
			})
		}
	})
}

func init() { world("C20", reuseWorld) }
