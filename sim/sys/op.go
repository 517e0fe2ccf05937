package sys

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"strings"

	"amsim/simrt"
	"amsim/uni"
)

// Kind of operation.
type Kind int

const (
	Bare Kind = iota
	LP
	LPWriter
	MustBare
	MustLP
	JSON
	JSONIndent
	Copy
	UBare
	ULP
	ULPReader
	MustUBare
	MustULP
	UJSON
	MustUJSON
	Print
	Register
	Seal
)

var kindNames = [...]string{"MarshalBinaryBare", "MarshalBinaryLengthPrefixed", "MarshalBinaryLengthPrefixedWriter", "MustMarshalBinaryBare", "MustMarshalBinaryLengthPrefixed", "MarshalJSON", "MarshalJSONIndent", "DeepCopy", "UnmarshalBinaryBare", "UnmarshalBinaryLengthPrefixed", "UnmarshalBinaryLengthPrefixedReader", "MustUnmarshalBinaryBare", "MustUnmarshalBinaryLengthPrefixed", "UnmarshalJSON", "MustUnmarshalJSON", "PrintTypes", "Register", "Seal"}

func (k Kind) String() string { return kindNames[k] }

// Decodes tells whether the operation decodes.
func (k Kind) Decodes() bool { return k >= UBare && k <= MustUJSON }

// IsJSON tells whether the operation uses the JSON form.
func (k Kind) IsJSON() bool { return k == JSON || k == JSONIndent || k == UJSON || k == MustUJSON }

// Op is one call.
type Op struct {
	Kind  Kind
	Type  *uni.Type
	Val   reflect.Value // encode, copy
	ByPtr bool
	Data  []byte // decode
	Reg   Reg
	Max   int64
}

func (o *Op) String() string {
	s := o.Kind.String()
	switch {
	case o.Kind == Register:
		return o.Reg.String()
	case o.Kind == Print || o.Kind == Seal:
		return s + "()"
	case o.Kind.Decodes():
		if o.Kind.IsJSON() {
			return fmt.Sprintf("%s(%s, *%s)", s, clip(string(o.Data), 300), o.Type.RT)
		}
		return fmt.Sprintf("%s(%X, *%s)", s, clipb(o.Data, 300), o.Type.RT)
	}
	return fmt.Sprintf("%s(%s %s)", s, o.Type.RT, clip(uni.DumpV(o.Val), 500))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func clipb(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// Result is what a call returned, in a comparable form.
type Result struct {
	Class string // ok, err, panic
	Out   string // bytes returned or written
	Val   string // dump of the decoded value or copy
	Err   string // normalised text of the error or panic
	N     int64

	Bytes []byte        // the very slice returned
	Value reflect.Value // the very value decoded or copied
	ErrV  error
}

func (r Result) String() string {
	s := r.Class
	if r.Err != "" {
		s += " " + clip(r.Err, 300)
	}
	if r.Out != "" {
		s += fmt.Sprintf(" bytes=%X", clip(r.Out, 300))
	}
	if r.Val != "" {
		s += " value=" + clip(r.Val, 500)
	}
	if r.N != 0 {
		s += fmt.Sprintf(" n=%d", r.N)
	}
	return s
}

var (
	reAddr = regexp.MustCompile(`0x?c[0-9a-f]{8,}|0xc[0-9a-f]+|\(0x[0-9a-f]+\)`)
)

// Norm removes from a text what legitimately differs between two executions.
func Norm(s string) string {
	if strings.Contains(s, "0x") {
		s = reAddr.ReplaceAllString(s, "ADDR")
	}
	return strings.ReplaceAll(s, "aminoref.", "amino.")
}

// Same compares two results of the same call. Error texts are compared unless
// they may name any of several defects in an unspecified order.
func Same(a, b Result, texts bool) bool {
	if a.Class != b.Class || a.Out != b.Out || a.N != b.N {
		return false
	}
	if a.Class == "ok" && a.Val != b.Val {
		return false
	}
	return !texts || a.Err == b.Err
}

// IO supplies the readers and writers of a call.
type IO interface {
	Reader(data []byte) io.Reader
	Writer(to *bytes.Buffer) io.Writer
}

// PlainIO never stalls nor fails.
type PlainIO struct{}

func (PlainIO) Reader(data []byte) io.Reader      { return bytes.NewReader(data) }
func (PlainIO) Writer(to *bytes.Buffer) io.Writer { return to }

// Run makes the call and records its result.
func (o *Op) Run(c Codec, cp Copier, ios IO) (r Result) {
	return o.RunInto(c, cp, ios, reflect.Value{})
}

// RunInto is Run with the destination to decode into.
func (o *Op) RunInto(c Codec, cp Copier, ios IO, dst reflect.Value) (r Result) {
	var dest reflect.Value
	var out []byte
	var err error
	var sink bytes.Buffer
	func() {
		finished := false
		defer func() {
			if finished {
				return
			}
			p := recover()
			if p == nil {
				return // the task is being destroyed
			}
			r.Class = "panic"
			r.Err = Norm(fmt.Sprint(p))
			if e, ok := p.(error); ok {
				r.ErrV = e
			}
		}()
		var in interface{}
		if o.Kind <= Copy {
			if o.ByPtr {
				in = o.Val.Addr().Interface()
			} else {
				in = o.Val.Interface()
			}
		} else if o.Kind.Decodes() {
			dest = dst
			if !dest.IsValid() {
				dest = reflect.New(o.Type.RT)
			}
		}
		switch o.Kind {
		case Bare:
			out, err = c.MarshalBinaryBare(in)
		case LP:
			out, err = c.MarshalBinaryLengthPrefixed(in)
		case LPWriter:
			r.N, err = c.MarshalBinaryLengthPrefixedWriter(ios.Writer(&sink), in)
			out = sink.Bytes()
		case MustBare:
			out = c.MustMarshalBinaryBare(in)
		case MustLP:
			out = c.MustMarshalBinaryLengthPrefixed(in)
		case JSON:
			out, err = c.MarshalJSON(in)
		case JSONIndent:
			out, err = c.MarshalJSONIndent(in, "", " ")
		case Copy:
			v := cp(in)
			r.Value = reflect.ValueOf(v)
			r.Val = uni.Dump(v)
		case UBare:
			err = c.UnmarshalBinaryBare(o.Data, dest.Interface())
		case ULP:
			err = c.UnmarshalBinaryLengthPrefixed(o.Data, dest.Interface())
		case ULPReader:
			r.N, err = c.UnmarshalBinaryLengthPrefixedReader(ios.Reader(o.Data), dest.Interface(), o.Max)
		case MustUBare:
			c.MustUnmarshalBinaryBare(o.Data, dest.Interface())
		case MustULP:
			c.MustUnmarshalBinaryLengthPrefixed(o.Data, dest.Interface())
		case UJSON:
			err = c.UnmarshalJSON(o.Data, dest.Interface())
		case MustUJSON:
			c.MustUnmarshalJSON(o.Data, dest.Interface())
		case Print:
			err = c.PrintTypes(ios.Writer(&sink))
			out = sink.Bytes()
		case Register:
			o.Reg.Apply(c)
		case Seal:
			c.DoSeal()
		}
		r.Class = "ok"
		if err != nil {
			r.Class = "err"
			r.Err = Norm(err.Error())
			r.ErrV = err
		}
		finished = true
	}()
	r.Bytes = out
	r.Out = string(out)
	if o.Kind.Decodes() {
		r.Value = dest
		if r.Class == "ok" {
			r.Val = uni.DumpV(dest.Elem())
		}
	}
	return r
}

// EncKinds picks an encoding operation.
func EncKind(t *simrt.Tape, ty *uni.Type, copies bool) Kind {
	if !ty.Bin && !ty.JSON {
		return Copy
	}
	if !ty.Bin {
		if copies && t.Chance(1, 4) {
			return Copy
		}
		return []Kind{JSON, JSONIndent}[t.Pick(4, 1)]
	}
	if copies && t.Chance(1, 8) {
		return Copy
	}
	return []Kind{Bare, LP, JSON, LPWriter, MustBare, MustLP, JSONIndent}[t.Pick(6, 3, 4, 2, 1, 1, 1)]
}

// DecKind picks a decoding operation fitting bytes of an encoding operation.
func DecKind(t *simrt.Tape, enc Kind) Kind {
	switch enc {
	case Bare, MustBare:
		return []Kind{UBare, MustUBare}[t.Pick(5, 1)]
	case LP, MustLP, LPWriter:
		return []Kind{ULP, ULPReader, MustULP}[t.Pick(3, 3, 1)]
	}
	return []Kind{UJSON, MustUJSON}[t.Pick(5, 1)]
}
