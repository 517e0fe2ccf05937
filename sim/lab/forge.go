package lab

import (
	"encoding/binary"
	"reflect"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// A forger writes messages of a type from the published format, as another
// implementation would, and goes wrong here and there.
type forger struct {
	t    *simrt.Tape
	m    *model
	rate int // goes wrong once in so many places
	pad  int // writes a number longer than need be once in so many, if not 0
	left int // bytes it may still write, about
}

func (f *forger) wrong() bool { return f.t.Chance(1, f.rate) }

// edgeNum is a number at the border of some range.
func edgeNum(t *simrt.Tape) uint64 {
	x := uint64(1)<<[]uint{7, 8, 15, 16, 31, 32, 53, 63, 0, 1, 14, 17, 33, 62, 29, 3}[t.Draw(16)] + uint64(t.Draw(4)) - 2
	switch t.Draw(4) {
	case 0:
		x = -x
	case 1: // as zigzag numbers are written
		x = uint64(int64(x)<<1 ^ int64(x)>>63)
	}
	return x
}

func (f *forger) num() uint64 {
	if f.t.Chance(1, 2) {
		return edgeNum(f.t)
	}
	return f.t.U64() >> uint(f.t.Draw(64))
}

// small is a number that fits into rt, as it is written.
func (f *forger) small(rt reflect.Type) uint64 {
	k := rt.Bits()
	x := f.num()
	switch rt.Kind() {
	case reflect.Int8, reflect.Int16:
		return x & (1<<uint(k) - 1) // zigzag
	case reflect.Int32:
		return uint64(int64(int32(x)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return x & (1<<uint(k) - 1)
	}
	return x
}

// big is a number that may be just too big for rt.
func (f *forger) big(rt reflect.Type) uint64 {
	if rt.Bits() == 64 || f.t.Chance(1, 3) {
		return f.num()
	}
	k := uint(rt.Bits())
	x := uint64(1) << (k - uint(f.t.Draw(2)))
	if f.t.Chance(1, 2) {
		x += uint64(f.t.Draw(4)) - 2
	} else {
		x += (f.t.U64() >> 1) % x
	}
	if f.t.Chance(1, 2) {
		x = -x
	}
	switch rt.Kind() {
	case reflect.Int8, reflect.Int16:
		x = uint64(int64(x)<<1 ^ int64(x)>>63)
	}
	return x
}

func (f *forger) fixed(n int) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], f.num())
	return b[:n]
}

func (f *forger) varint(x uint64) []byte {
	b := uvarint(x)
	if (f.pad > 0 && f.t.Chance(1, f.pad) || f.wrong() && f.t.Chance(1, 3)) && len(b) < 9 {
		// Longer than need be.
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func (f *forger) delimited(b []byte) []byte {
	l := uint64(len(b))
	if f.wrong() {
		switch f.t.Draw(4) {
		case 0:
			l++
		case 1:
			l--
		case 2:
			l = f.num()
		default:
			return append(uvarint(l), b...)
		}
	}
	return append(f.varint(l), b...)
}

// key is the key of field n.
func (f *forger) key(n int, typ uint64) []byte {
	x := uint64(n)
	if f.wrong() {
		switch f.t.Draw(6) {
		case 0:
			x++
		case 1:
			x--
		case 2:
			x = f.num()
		case 3:
			x = pastNumber(f.t, x)
		default:
			typ = uint64(f.t.Draw(8))
		}
	}
	return f.varint(x<<3 | typ)
}

// cell is a field with its key.
func (f *forger) cell(n int, rt reflect.Type, o mopts, depth int) []byte {
	t := bottom(rt)
	w := wireType(t, o)
	b := f.contents(t, o, depth)
	if w == 2 {
		b = f.delimited(b)
	}
	return append(f.key(n, w), b...)
}

// contents is a value without key or length.
func (f *forger) contents(rt reflect.Type, o mopts, depth int) (b []byte) {
	defer func() {
		f.left -= len(b)
		if f.wrong() {
			// Something left over, or cut off.
			switch f.t.Draw(4) {
			case 0:
				b = append(b, byte(f.t.Draw(256)))
			case 1:
				b = append(b, f.t.Bytes(1+f.t.Draw(9))...)
			case 2:
				b = b[:len(b)-min(len(b), 1+f.t.Draw(3))]
			}
		}
	}()
	if um, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); ok && rt.Kind() != reflect.Interface {
		return f.contents(bottom(um.Type.In(1)), o, depth+1)
	}
	switch rt.Kind() {
	case reflect.Bool:
		if f.wrong() {
			return uvarint(f.num())
		}
		return []byte{byte(f.t.Draw(2))}
	case reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64, reflect.Float32, reflect.Float64:
		switch wireType(rt, o) {
		case 1:
			return f.fixed(8)
		case 5:
			return f.fixed(4)
		}
		fallthrough
	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Int16, reflect.Uint8, reflect.Uint16:
		if f.t.Chance(1, 4) {
			return f.varint(0)
		}
		if f.wrong() || f.wrong() || f.wrong() || f.wrong() {
			return f.varint(f.big(rt))
		}
		return f.varint(f.small(rt))
	case reflect.String:
		return f.t.Bytes(f.t.Draw(12))
	case reflect.Slice, reflect.Array:
		n := f.t.Draw(4)
		if rt.Kind() == reflect.Array {
			n = rt.Len()
			if f.wrong() {
				n += f.t.Draw(3) - 1
			}
		}
		if n < 0 || n > 64 && f.left < 0 {
			n = 0
		}
		if byteList(rt) {
			return f.t.Bytes(n)
		}
		et := bottom(rt.Elem())
		if wireType(et, o) == 2 {
			return f.elements(rt, n, o.num, o, depth)
		}
		for i := 0; i < n; i++ {
			b = append(b, f.contents(et, o, depth+1)...)
		}
		return b
	case reflect.Struct:
		if rt == rtTime {
			return f.time()
		}
		return f.structure(rt, depth)
	case reflect.Interface:
		return f.iface(rt, o, depth)
	}
	return nil
}

func (f *forger) elements(rt reflect.Type, n, num int, o mopts, depth int) (b []byte) {
	eo := o
	eo.num = 1
	for i := 0; i < n; i++ {
		if depth > 8 || f.left < 0 || f.t.Chance(1, 5) {
			b = append(append(b, f.key(num, 2)...), 0)
			continue
		}
		b = append(b, f.cell(num, rt.Elem(), eo, depth+1)...)
	}
	return b
}

func (f *forger) time() (b []byte) {
	s := uint64(f.t.Draw(1 << 30))
	ns := uint64(f.t.Draw(1e9))
	if f.t.Chance(1, 3) {
		s = uint64([]int64{-62135596800, 253402300799, -1, 0}[f.t.Draw(4)])
	}
	if f.t.Chance(1, 3) {
		ns = []uint64{999999999, 1, 0}[f.t.Draw(3)]
	}
	if f.wrong() {
		s = uint64([]int64{-62135596801, 253402300800, int64(f.num())}[f.t.Draw(3)])
	}
	if f.wrong() {
		ns = []uint64{1000000000, 1<<64 - 1, 1 << 32, 1<<32 + 5, f.num()}[f.t.Draw(5)]
	}
	x := append(f.key(1, 0), f.varint(s)...)
	y := append(f.key(2, 0), f.varint(ns)...)
	if f.t.Chance(1, 4) {
		x = nil
	}
	if f.t.Chance(1, 4) {
		y = nil
	}
	if f.wrong() {
		x, y = y, x
	}
	b = append(x, y...)
	if f.wrong() {
		b = append(append(b, f.key(f.t.Draw(4), 0)...), f.varint(f.num())...)
	}
	return b
}

// unknown is a field of any kind.
func (f *forger) unknown(n int) []byte {
	w := []uint64{0, 1, 2, 5}[f.t.Draw(4)]
	b := uvarint(uint64(n)<<3 | w)
	switch w {
	case 0:
		return append(b, f.varint(f.num())...)
	case 1:
		return append(b, f.fixed(8)...)
	case 5:
		return append(b, f.fixed(4)...)
	}
	return append(b, f.delimited(f.t.Bytes(f.t.Draw(20)))...)
}

func (f *forger) structure(rt reflect.Type, depth int) []byte {
	var parts [][]byte
	num := 0
	for i := 0; i < rt.NumField(); i++ {
		fd := rt.Field(i)
		if fd.PkgPath != "" || fd.Tag.Get("json") == "-" {
			continue
		}
		num++
		if depth > 8 || f.left < 0 || f.t.Chance(3, 5) {
			continue
		}
		o := optsOf(fd.Tag)
		o.num = num
		if isList(fd.Type) && wireType(bottom(fd.Type.Elem()), o) == 2 {
			n := f.t.Draw(4)
			if fd.Type.Kind() == reflect.Array {
				n = fd.Type.Len()
				if f.wrong() {
					n += f.t.Draw(3) - 1
				}
			}
			if n > 0 && n < 64 {
				parts = append(parts, f.elements(fd.Type, n, num, o, depth))
			}
			continue
		}
		parts = append(parts, f.cell(num, fd.Type, o, depth+1))
		if f.wrong() {
			parts = append(parts, f.cell(num, fd.Type, o, depth+1))
		}
	}
	for f.t.Chance(1, 6) {
		num += 1 + f.t.Draw(3)
		if f.t.Chance(1, 10) {
			num += 1 << uint(f.t.Draw(28))
		}
		parts = append(parts, f.unknown(num))
	}
	if f.wrong() && len(parts) > 0 {
		// Out of order, twice, or unknown.
		i, j := f.t.Draw(len(parts)), f.t.Draw(len(parts))
		switch f.t.Draw(3) {
		case 0:
			parts[i], parts[j] = parts[j], parts[i]
		case 1:
			parts = append(parts, parts[i])
		default:
			parts[i] = append(append([]byte(nil), parts[i]...), f.unknown(f.t.Draw(min(num, 40)+3))...)
		}
	}
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

// iface is what an interface holds, with its prefix bytes.
func (f *forger) iface(rt reflect.Type, o mopts, depth int) []byte {
	var can []*mconc
	for _, c := range f.m.concs {
		if reflect.PtrTo(c.rt).Implements(rt) || f.t.Chance(1, 40) {
			can = append(can, c)
		}
	}
	if len(can) == 0 || depth > 8 || f.wrong() && f.t.Chance(1, 4) {
		return nil
	}
	c := can[f.t.Draw(len(can))]
	b := append([]byte(nil), c.prefix[:]...)
	if f.t.Chance(1, 4) {
		b = append(append([]byte{0}, c.disamb[:]...), b...)
	}
	if f.wrong() {
		switch f.t.Draw(3) {
		case 0:
			return b[:f.t.Draw(len(b)+1)]
		case 1:
			b[f.t.Draw(len(b))] ^= 1
		default:
			copy(b, can[f.t.Draw(len(can))].prefix[:])
		}
	}
	x := f.contents(c.rt, o, depth+1)
	if c.rt.Kind() != reflect.Struct && !isList(c.rt) && wireType(c.rt, mopts{}) == 2 {
		x = f.delimited(x)
	}
	return append(b, x...)
}

// bare is a top-level message.
func (f *forger) bare(rt reflect.Type) []byte {
	rt = bottom(rt)
	var b []byte
	o := mopts{num: 1}
	top := func(rt reflect.Type) []byte {
		if rt.Kind() == reflect.Struct || isList(rt) && rt.Elem().Kind() == reflect.Struct {
			return f.contents(rt, o, 1)
		}
		return f.cell(1, rt, o, 1)
	}
	if rt.Kind() == reflect.Interface {
		for _, c := range f.m.concs {
			if reflect.PtrTo(c.rt).Implements(rt) && (b == nil || f.t.Chance(1, 3)) {
				b = append(append([]byte(nil), c.prefix[:]...), top(c.rt)...)
			}
		}
		return b
	}
	if c := f.m.conc(rt); c != nil && !f.wrong() {
		b = append(b, c.prefix[:]...)
	}
	return append(b, top(rt)...)
}

// forge writes a message of type t.
func (g *opgen) forge(t *uni.Type, cfg *sys.Config) []byte {
	w := g.r.Work
	Inject(FForge)
	f := &forger{t: w, m: newModel(cfg), rate: []int{15, 40, 120}[w.Draw(3)], left: 2000}
	if w.Chance(1, 4) {
		f.pad = 2 + w.Draw(6)
	}
	return f.bare(t.RT)
}
