// Package sys is the simulated callers' view of the system under test: codecs of
// the instrumented library (the real code, under the simulator's seams) and of
// the pristine library (the isolated reference), behind one interface.
package sys

import (
	"io"

	aminoref "amsim/aminoref"
	amino "github.com/tendermint/go-amino"
)

// Codec is what callers use.
type Codec interface {
	MarshalBinaryLengthPrefixed(o interface{}) ([]byte, error)
	MarshalBinaryLengthPrefixedWriter(w io.Writer, o interface{}) (int64, error)
	MustMarshalBinaryLengthPrefixed(o interface{}) []byte
	MarshalBinaryBare(o interface{}) ([]byte, error)
	MustMarshalBinaryBare(o interface{}) []byte
	UnmarshalBinaryLengthPrefixed(bz []byte, ptr interface{}) error
	UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface{}, maxSize int64) (int64, error)
	MustUnmarshalBinaryLengthPrefixed(bz []byte, ptr interface{})
	UnmarshalBinaryBare(bz []byte, ptr interface{}) error
	MustUnmarshalBinaryBare(bz []byte, ptr interface{})
	MarshalJSON(o interface{}) ([]byte, error)
	MustMarshalJSON(o interface{}) []byte
	UnmarshalJSON(bz []byte, ptr interface{}) error
	MustUnmarshalJSON(bz []byte, ptr interface{})
	MarshalJSONIndent(o interface{}, prefix, indent string) ([]byte, error)
	PrintTypes(out io.Writer) error

	RegIface(ptr interface{}, opts *IOpts)
	RegConc(o interface{}, name string)
	DoSeal()
}

// IOpts are interface options.
type IOpts struct {
	Prio   []string
	Always bool
}

type live struct{ *amino.Codec }

func (l live) RegIface(ptr interface{}, o *IOpts) {
	if o == nil {
		l.RegisterInterface(ptr, nil)
		return
	}
	l.RegisterInterface(ptr, &amino.InterfaceOptions{Priority: o.Prio, AlwaysDisambiguate: o.Always})
}
func (l live) RegConc(o interface{}, name string) { l.RegisterConcrete(o, name, nil) }
func (l live) DoSeal()                            { l.Seal() }

type ref struct{ *aminoref.Codec }

func (l ref) RegIface(ptr interface{}, o *IOpts) {
	if o == nil {
		l.RegisterInterface(ptr, nil)
		return
	}
	l.RegisterInterface(ptr, &aminoref.InterfaceOptions{Priority: o.Prio, AlwaysDisambiguate: o.Always})
}
func (l ref) RegConc(o interface{}, name string) { l.RegisterConcrete(o, name, nil) }
func (l ref) DoSeal()                            { l.Seal() }

// pkg and rpkg present the package-level functions as a codec.
type pkg struct{}

func (pkg) MarshalBinaryLengthPrefixed(o interface{}) ([]byte, error) {
	return amino.MarshalBinaryLengthPrefixed(o)
}
func (pkg) MarshalBinaryLengthPrefixedWriter(w io.Writer, o interface{}) (int64, error) {
	return amino.MarshalBinaryLengthPrefixedWriter(w, o)
}
func (pkg) MustMarshalBinaryLengthPrefixed(o interface{}) []byte {
	return amino.MustMarshalBinaryLengthPrefixed(o)
}
func (pkg) MarshalBinaryBare(o interface{}) ([]byte, error) { return amino.MarshalBinaryBare(o) }
func (pkg) MustMarshalBinaryBare(o interface{}) []byte      { return amino.MustMarshalBinaryBare(o) }
func (pkg) UnmarshalBinaryLengthPrefixed(bz []byte, ptr interface{}) error {
	return amino.UnmarshalBinaryLengthPrefixed(bz, ptr)
}
func (pkg) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface{}, m int64) (int64, error) {
	return amino.UnmarshalBinaryLengthPrefixedReader(r, ptr, m)
}
func (pkg) MustUnmarshalBinaryLengthPrefixed(bz []byte, ptr interface{}) {
	amino.MustUnmarshalBinaryLengthPrefixed(bz, ptr)
}
func (pkg) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
	return amino.UnmarshalBinaryBare(bz, ptr)
}
func (pkg) MustUnmarshalBinaryBare(bz []byte, ptr interface{}) {
	amino.MustUnmarshalBinaryBare(bz, ptr)
}
func (pkg) MarshalJSON(o interface{}) ([]byte, error) { return amino.MarshalJSON(o) }
func (pkg) MustMarshalJSON(o interface{}) []byte {
	b, err := amino.MarshalJSON(o)
	if err != nil {
		panic(err)
	}
	return b
}
func (pkg) UnmarshalJSON(bz []byte, ptr interface{}) error { return amino.UnmarshalJSON(bz, ptr) }
func (pkg) MustUnmarshalJSON(bz []byte, ptr interface{}) {
	if err := amino.UnmarshalJSON(bz, ptr); err != nil {
		panic(err)
	}
}
func (pkg) MarshalJSONIndent(o interface{}, p, i string) ([]byte, error) {
	return amino.MarshalJSONIndent(o, p, i)
}
func (pkg) PrintTypes(io.Writer) error   { panic("no such function") }
func (pkg) RegIface(interface{}, *IOpts) { panic("no such function") }
func (pkg) RegConc(interface{}, string)  { panic("no such function") }
func (pkg) DoSeal()                      { panic("no such function") }

// New returns a fresh codec of the system under test.
func New() Codec { return live{amino.NewCodec()} }

// Ref returns a fresh codec of the isolated reference.
func Ref() Codec { return ref{aminoref.NewCodec()} }

// Pkg is the package-level codec of the system under test.
func Pkg() Codec { return pkg{} }

// RefPkg is a fresh codec equivalent to the package-level one.
func RefPkg() Codec { r := Ref(); r.DoSeal(); return r }

// Copier is the DeepCopy function.
type Copier func(interface{}) interface{}

func DeepCopy(o interface{}) interface{}    { return amino.DeepCopy(o) }
func RefDeepCopy(o interface{}) interface{} { return aminoref.DeepCopy(o) }
