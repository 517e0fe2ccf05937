package lab

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"strconv"

	"amsim/simrt"
)

// Damage that respects the structure of a message: what surrounds it stays
// well-formed, so that it reaches the decoders of the parts.

// jnode is a value of a JSON text, or a member of an object (name and value).
type jnode struct {
	lo, hi int
	kind   byte // first byte of the value; 'm' for a member
	kids   int  // of an array or object
}

// jscan lists the values and members of a valid JSON text; nil if it is not one.
func jscan(b []byte) []jnode {
	var out []jnode
	i, depth := 0, 0
	ws := func() {
		for i < len(b) && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r') {
			i++
		}
	}
	str := func() bool {
		if i >= len(b) || b[i] != '"' {
			return false
		}
		for i++; i < len(b); i++ {
			switch b[i] {
			case '\\':
				i++
			case '"':
				i++
				return true
			}
		}
		return false
	}
	var val func() bool
	val = func() bool {
		ws()
		if i >= len(b) || depth > 200 || len(out) > 5000 {
			return false
		}
		k := len(out)
		lo := i
		out = append(out, jnode{lo: lo, kind: b[i]})
		switch b[i] {
		case '{', '[':
			obj := b[i] == '{'
			end := byte(']')
			if obj {
				end = '}'
			}
			depth++
			i++
			ws()
			for i < len(b) && b[i] != end {
				m := -1
				if obj {
					m = len(out)
					out = append(out, jnode{lo: i, kind: 'm'})
					if !str() {
						return false
					}
					ws()
					if i >= len(b) || b[i] != ':' {
						return false
					}
					i++
				}
				if !val() {
					return false
				}
				if m >= 0 {
					out[m].hi = i
				}
				out[k].kids++
				ws()
				if i < len(b) && b[i] == ',' {
					i++
					ws()
				}
			}
			if i >= len(b) {
				return false
			}
			i++
			depth--
		case '"':
			if !str() {
				return false
			}
		default:
			for i < len(b) && b[i] != ',' && b[i] != ']' && b[i] != '}' && b[i] != ' ' {
				i++
			}
			if i == lo {
				return false
			}
		}
		out[k].hi = i
		return true
	}
	if !val() {
		return nil
	}
	return out
}

var jvalues = []string{"null", "true", "false", "0", "1", "-1", "300", "1.5", "1e400", "-9223372036854775809", "9223372036854775808", "18446744073709551616", "128", `""`, `"0"`, `"-1"`, `"1"`, `"300"`, `"9223372036854775807"`, `"9223372036854775808"`, `"-9223372036854775808"`, `"1.5"`, `" 1"`, `"+1"`, `"0x10"`, `"AA=="`, `"AAAA"`, `"A"`, `"!!!!"`, `"2018-01-01T00:00:00Z"`, `"0000-01-01T00:00:00Z"`, `"9999-12-31T23:59:59.999999999+23:59"`, `"10000-01-01T00:00:00Z"`, `"0001-01-01T00:00:00+01:00"`, `"\ud800"`, `"sim/Circle"`, "{}", "[]", "[null]", "[[]]", "[{}]", `{"type":"sim/Circle","value":null}`, `{"type":"sim/Square","value":{}}`, `{"type":"sim/Circle"}`, `{"value":{}}`, `{"type":1,"value":2}`, `{"type":"sim/Group","value":{"One":{"type":"sim/Group","value":null}}}`, `{"a":1,"a":2}`, `{"":""}`}

func jstring(t *simrt.Tape, s []byte) []byte {
	q, err := strconv.Unquote(string(s))
	if err != nil {
		q = string(s[1 : len(s)-1])
	}
	if raw, err := base64.StdEncoding.DecodeString(q); err == nil && len(raw) > 0 && t.Chance(2, 3) {
		// Bytes: more or fewer of them.
		n := len(raw)
		switch t.Draw(4) {
		case 0:
			raw = raw[:t.Draw(n)]
		case 1:
			raw = raw[:n-1]
		case 2:
			raw = append(raw, t.Bytes(1+t.Draw(40))...)
		default:
			raw = append(raw, 0)
		}
		return []byte(`"` + base64.StdEncoding.EncodeToString(raw) + `"`)
	}
	switch t.Draw(5) {
	case 0:
		q = q[:t.Draw(len(q)+1)]
	case 1:
		q += q
	case 2:
		q = "-" + q
	case 3:
		q += ".5"
	default:
		q = "0" + q
	}
	return []byte(strconv.QuoteToASCII(q))
}

// mutJSON damages a JSON text within its structure.
func mutJSON(t *simrt.Tape, b []byte) []byte {
	ns := jscan(b)
	if len(ns) == 0 {
		return b
	}
	Inject(FReshape)
	n := ns[t.Draw(len(ns))]
	put := func(lo, hi int, x []byte) []byte { return bytes.Join([][]byte{b[:lo], x, b[hi:]}, nil) }
	// drop removes it with the comma that belongs to it.
	drop := func(n jnode) []byte {
		lo, hi := n.lo, n.hi
		if hi < len(b) && b[hi] == ',' {
			hi++
		} else if lo > 0 && b[lo-1] == ',' {
			lo--
		}
		return put(lo, hi, nil)
	}
	inList := n.kind != 'm' && n.lo > 0 && b[n.lo-1] != ':'
	switch t.Draw(6) {
	case 0: // another value of the same text
		m := ns[t.Draw(len(ns))]
		if (m.kind == 'm') == (n.kind == 'm') {
			return put(n.lo, n.hi, append([]byte(nil), b[m.lo:m.hi]...))
		}
	case 1: // one less
		if n.kind == 'm' || inList {
			return drop(n)
		}
	case 2: // one more
		if n.kind == 'm' || inList {
			x := append([]byte(nil), b[n.lo:n.hi]...)
			k := 1
			if t.Chance(1, 4) {
				k = 1 + t.Draw(40)
			}
			for ; k > 0; k-- {
				x = append(append(x, ','), b[n.lo:n.hi]...)
			}
			return put(n.lo, n.hi, x)
		}
	case 3: // wrapped or unwrapped
		if n.kind != 'm' {
			w := [][2]string{{"[", "]"}, {`{"x":`, "}"}, {`{"type":"sim/Circle","value":`, "}"}, {`"`, `"`}, {`{"value":`, `,"type":"sim/Circle"}`}}[t.Draw(5)]
			return put(n.lo, n.hi, []byte(w[0]+string(b[n.lo:n.hi])+w[1]))
		}
		k := bytes.IndexByte(b[n.lo:n.hi], ':')
		return put(n.lo, n.lo+k, []byte([]string{`"A"`, `"x"`, `"type"`, `"value"`, `""`, `"S"`, `"N"`}[t.Draw(7)]))
	}
	switch n.kind {
	case '"':
		if t.Chance(2, 3) {
			return put(n.lo, n.hi, jstring(t, b[n.lo:n.hi]))
		}
	case 'm':
		k := bytes.IndexByte(b[n.lo:n.hi], ':')
		return put(n.lo+k+1, n.hi, []byte(jvalues[t.Draw(len(jvalues))]))
	}
	return put(n.lo, n.hi, []byte(jvalues[t.Draw(len(jvalues))]))
}

// bfield is a field of a binary message.
type bfield struct {
	lo, hi  int // all of it
	key     uint64
	pay     int   // where its payload starts (after the length of a delimited one)
	parents []int // the delimited fields around it
}

// bscan lists the fields of a binary message, and of the messages within.
func bscan(b []byte) []bfield {
	var out []bfield
	var walk func(lo, hi int, parents []int) bool
	walk = func(lo, hi int, parents []int) bool {
		start := len(out)
		for i := lo; i < hi; {
			f := bfield{lo: i, parents: parents}
			key, n := binary.Uvarint(b[i:hi])
			if n <= 0 || key>>3 == 0 || key>>3 > 1<<29 || len(out) > 2000 {
				out = out[:start]
				return false
			}
			f.key = key
			i += n
			f.pay = i
			switch key & 7 {
			case 0:
				_, n := binary.Uvarint(b[i:hi])
				if n <= 0 {
					out = out[:start]
					return false
				}
				i += n
			case 1:
				i += 8
			case 5:
				i += 4
			case 2:
				l, n := binary.Uvarint(b[i:hi])
				if n <= 0 || l > uint64(hi) {
					out = out[:start]
					return false
				}
				f.pay = i + n
				i += n + int(l)
			default:
				out = out[:start]
				return false
			}
			if i > hi {
				out = out[:start]
				return false
			}
			f.hi = i
			out = append(out, f)
			if key&7 == 2 && len(parents) < 60 {
				at := f.pay
				me := append(parents[:len(parents):len(parents)], len(out)-1)
				if !walk(at, i, me) && i-at >= 4 {
					// Prefix bytes, or disambiguation and prefix bytes, may come first.
					if !walk(at+4, i, me) && i-at >= 8 {
						walk(at+8, i, me)
					}
				}
			}
		}
		return true
	}
	if !walk(0, len(b), nil) {
		out = nil
		if len(b) >= 4 {
			walk(4, len(b), nil)
		}
	}
	return out
}

// mutBinary damages a binary message within its structure: the lengths around
// the damage are right.
func mutBinary(t *simrt.Tape, b []byte) []byte {
	fs := bscan(b)
	if len(fs) == 0 {
		return b
	}
	Inject(FReshape)
	f := fs[t.Draw(len(fs))]
	var x []byte // what comes in its place
	all := b[f.lo:f.hi]
	pay := b[f.pay:f.hi]
	field := func(key uint64, pay []byte) []byte {
		x := uvarint(key)
		if key&7 == 2 {
			x = append(x, uvarint(uint64(len(pay)))...)
		}
		return append(x, pay...)
	}
	switch t.Draw(9) {
	case 0: // gone
	case 1: // repeated
		k := 2
		if t.Chance(1, 4) {
			k += t.Draw(40)
		}
		x = bytes.Repeat(all, k)
	case 2: // another field number
		n := uint64(t.Draw(20))
		switch {
		case t.Chance(1, 8):
			n = t.U64() >> uint(t.Draw(64))
		case t.Chance(1, 8):
			n = pastNumber(t, f.key>>3)
		}
		x = field(n<<3|f.key&7, pay)
	case 3: // another kind of field, with the payload as it is
		x = append(uvarint(f.key&^7|uint64(t.Draw(8))), b[f.pay:f.hi]...)
	case 4: // another payload
		p := append([]byte(nil), pay...)
		switch t.Draw(5) {
		case 0:
			p = p[:t.Draw(len(p)+1)]
		case 1:
			p = append(p, binBits[t.Draw(len(binBits))]...)
		case 2:
			p = append(p, t.Bytes(1+t.Draw(40))...)
		case 3:
			if len(p) > 0 {
				p[t.Draw(len(p))] ^= 1 << uint(t.Draw(8))
			}
		case 4:
			p = nil
		}
		if f.key&7 == 0 && t.Chance(3, 4) {
			p = uvarint(anyNum(t))
		}
		x = field(f.key, p)
	case 5: // the payload of another field
		o := fs[t.Draw(len(fs))]
		x = field(f.key&^7|o.key&7, b[o.pay:o.hi])
	case 6: // another field in its place
		o := fs[t.Draw(len(fs))]
		x = append([]byte(nil), b[o.lo:o.hi]...)
	case 7: // one more after it
		x = append([]byte(nil), all...)
		k := f.key + 8*uint64(t.Draw(4))
		if t.Chance(1, 10) {
			k = pastNumber(t, f.key>>3) << 3
		}
		switch t.Draw(4) {
		case 0:
			x = append(x, field(k&^7, uvarint(anyNum(t)))...)
		case 1:
			x = append(x, field(k&^7|1, t.Bytes(8))...)
		case 2:
			x = append(x, field(k&^7|5, t.Bytes(4))...)
		case 3:
			x = append(x, field(k&^7|2, t.Bytes(t.Draw(12)))...)
		}
	case 8: // its length is a lie
		if f.key&7 != 2 {
			x = append(append([]byte(nil), all...), all...)
			break
		}
		l := uint64(len(pay))
		switch t.Draw(3) {
		case 0:
			l += uint64(1 + t.Draw(3))
		case 1:
			if l > 0 {
				l--
			}
		default:
			l = t.U64() >> uint(t.Draw(64))
		}
		x = append(append(uvarint(f.key), uvarint(l)...), pay...)
	}
	out := append(append(append([]byte(nil), b[:f.lo]...), x...), b[f.hi:]...)
	// Mend the lengths around it, from the inside out.
	for i := len(f.parents) - 1; i >= 0; i-- {
		p := fs[f.parents[i]]
		end := p.hi + len(out) - len(b)
		pl := append([]byte(nil), out[p.pay:end]...)
		y := field(p.key, pl)
		out = bytes.Join([][]byte{out[:p.lo], y, out[end:]}, nil)
		// Positions further out are before p.lo, so they still hold.
	}
	return out
}

func anyNum(t *simrt.Tape) uint64 {
	if t.Chance(1, 2) {
		return edgeNum(t)
	}
	return t.U64() >> uint(t.Draw(64))
}

// pastNumber is a field number out of range, near n when it is cut short.
func pastNumber(t *simrt.Tape, n uint64) uint64 {
	return n + uint64(t.Draw(2)) + 1<<[]uint{29, 30, 31, 32, 60}[t.Draw(5)]
}
