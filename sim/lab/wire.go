package lab

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing/iotest"
	"unsafe"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// wire is a simulated byte stream. Reads block in virtual time until there are
// bytes, the stream is closed, or it fails.
type wire struct {
	r      *Run
	buf    []byte
	off    int
	closed bool
	key    byte

	chunk   bool // deliver less than asked for
	one     bool // deliver single bytes
	zero    bool // sometimes zero bytes and no error
	eof     bool // the last bytes together with io.EOF
	scratch bool // use all of the buffer as scratch space
	stall   int

	failAt    int // offset of a failure, -1 for none
	err       error
	transient bool // the failure happens once
	errWith   bool // it comes together with the last bytes before it
	fired     bool

	idle   int // a long run of such reads
	idleAt int // at this offset

	zeros int
	calls int
}

func (r *Run) newWire() *wire {
	w := r.Work
	x := &wire{r: r, failAt: -1}
	x.chunk = w.Chance(1, 2)
	x.one = w.Chance(1, 6)
	x.zero = w.Chance(1, 3)
	x.eof = w.Chance(1, 3)
	x.scratch = w.Chance(1, 3)
	if w.Chance(1, 3) {
		x.stall = 1 + w.Draw(6)
	}
	if w.Chance(1, 10) {
		// NOTE: bufio gives up after 100.
		x.idle = []int{10, 90, 110, 300}[w.Draw(4)]
		x.idleAt = w.Draw(1 << uint(w.Draw(8)))
	}
	return x
}

func (x *wire) put(b []byte) {
	x.buf = append(x.buf, b...)
	simrt.Wake(unsafe.Pointer(&x.key))
}

func (x *wire) close() {
	x.closed = true
	simrt.Wake(unsafe.Pointer(&x.key))
}

func (x *wire) fails() bool {
	if x.failAt < 0 || x.off < x.failAt || (x.transient && x.fired) {
		return false
	}
	x.fired = true
	Inject(FReadError)
	return true
}

func (x *wire) Read(p []byte) (int, error) {
	simrt.Point()
	x.calls++
	env := x.r.Env
	if x.stall > 0 && simrt.InSim() && env.Chance(1, x.stall) {
		Inject(FStallReader)
		simrt.Sleep(1 + int64(env.Draw(100000)))
	}
	if len(p) == 0 {
		return 0, nil
	}
	if x.fails() {
		return 0, x.err
	}
	if x.scratch {
		for i := range p {
			p[i] = 0xAA
		}
	}
	for x.off == len(x.buf) {
		if x.closed {
			return 0, io.EOF
		}
		if !simrt.InSim() || simrt.Dying() {
			return 0, io.EOF
		}
		simrt.Block(unsafe.Pointer(&x.key), false)
	}
	if x.idle > 0 && x.off >= x.idleAt {
		x.idle--
		Inject(FZeroRead)
		return 0, nil
	}
	if x.zero && x.zeros < 3 && env.Chance(1, 3) {
		x.zeros++
		Inject(FZeroRead)
		return 0, nil
	}
	x.zeros = 0
	n := len(x.buf) - x.off
	if n > len(p) {
		n = len(p)
	}
	if x.failAt >= 0 && x.off < x.failAt && n > x.failAt-x.off {
		n = x.failAt - x.off
	}
	if x.idle > 0 && n > x.idleAt-x.off {
		n = x.idleAt - x.off
	}
	one := x.one && len(x.buf) < 3000
	if n > 1 && (one || x.chunk && env.Chance(1, 2)) {
		Inject(FShortRead)
		if one {
			n = 1
		} else {
			n = 1 + env.Draw(n-1)
		}
	}
	copy(p, x.buf[x.off:x.off+n])
	x.off += n
	if x.errWith && x.off == x.failAt && x.fails() {
		return n, x.err
	}
	if x.eof && x.closed && x.off == len(x.buf) {
		Inject(FDataEOF)
		return n, io.EOF
	}
	return n, nil
}

func (x *wire) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := x.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

type plainReader struct{ x *wire }

func (p plainReader) Read(b []byte) (int, error) { return p.x.Read(b) }

type byteReader struct{ plainReader }

func (b byteReader) ReadByte() (byte, error) { return b.x.ReadByte() }

type byteScanner struct{ byteReader }

func (b byteScanner) UnreadByte() error { b.x.off--; return nil }

// source is a reader made from a wire, with the number of bytes taken through it.
type source struct {
	io.Reader
	taken func() int
	kind  string
}

// as presents the wire as some kind of reader.
func (x *wire) as(k int) source {
	own := func() int { return x.off }
	if k == 6 && (len(x.buf) > 3000 || x.r.huge) {
		k = 7
	}
	switch k {
	default:
		return source{plainReader{x}, own, "plain"}
	case 1:
		return source{byteReader{plainReader{x}}, own, "ByteReader"}
	case 2:
		return source{byteScanner{byteReader{plainReader{x}}}, own, "ByteScanner"}
	case 3:
		if x.idle > 90 {
			x.idle = 90
		}
		b := bufio.NewReaderSize(plainReader{x}, 16<<uint(x.r.Work.Draw(9)))
		return source{b, func() int { return x.off - b.Buffered() }, "bufio"}
	case 4:
		return source{io.LimitReader(plainReader{x}, 1<<40), own, "LimitReader"}
	case 5:
		return source{io.TeeReader(plainReader{x}, io.Discard), own, "TeeReader"}
	case 6:
		return source{iotest.OneByteReader(plainReader{x}), own, "OneByteReader"}
	case 7:
		return source{iotest.HalfReader(plainReader{x}), own, "HalfReader"}
	// What follows needs everything to have been put on the wire.
	case 8:
		b := bytes.NewBuffer(append([]byte(nil), x.buf...))
		n := b.Len()
		return source{b, func() int { return n - b.Len() }, "bytes.Buffer"}
	case 9:
		b := bytes.NewReader(x.buf)
		return source{b, func() int { return len(x.buf) - b.Len() }, "bytes.Reader"}
	case 10:
		b := strings.NewReader(string(x.buf))
		return source{b, func() int { return len(x.buf) - b.Len() }, "strings.Reader"}
	case 11:
		var rs []io.Reader
		var ps []*bytes.Reader
		for rest := x.buf; len(rest) > 0; {
			n := 1 + x.r.Work.Draw(len(rest))
			if n > 4000 {
				n = len(rest)
			}
			p := bytes.NewReader(rest[:n])
			rest = rest[n:]
			rs = append(rs, p)
			ps = append(ps, p)
		}
		return source{io.MultiReader(rs...), func() int {
			n := 0
			for _, p := range ps {
				n += p.Len()
			}
			return len(x.buf) - n
		}, "MultiReader"}
	}
}

const (
	liveKinds = 8
	allKinds  = 12
)

// msg is a message and what it is to be decoded into.
type msg struct {
	t     *uni.Type
	v     reflect.Value
	canon string
	lp    []byte // the whole message
	body  []byte
	user  bool
}

// message makes a message that a codec with the configuration can encode.
func (r *Run) message(cfg *sys.Config, ref sys.Codec, big bool) *msg {
	w := r.Work
	if big && !r.huge && w.Chance(1, 4000) {
		// Once, a message whose length takes four bytes to write.
		r.huge = true
		r.Extra += 8 << 21
		return r.msgOf(ref, uni.Get("[]byte"), reflect.ValueOf(make([]byte, 1<<21+w.Draw(9)-4)))
	}
	if big && w.Chance(1, 25) {
		n := []int{100, 127, 128, 16384, 1<<16 - 4, 1 << 16, 70000, 200000}[w.Draw(8)] - w.Draw(6)
		return r.msgOf(ref, uni.Get("[]byte"), reflect.ValueOf(make([]byte, n)))
	}
	g := &uni.Gen{T: w, Concs: cfg.Concs(), Modes: "Y", Rate: 4, Size: []int{15, 5, 50}[w.Pick(5, 3, 1)]}
	for i := 0; i < 4; i++ {
		t := uni.PickType(w, func(t *uni.Type) bool { return t.Bin && t.Name != "Shape" })
		if m := r.msgOf(ref, t, g.Value(t.RT)); m != nil {
			return m
		}
	}
	return r.msgOf(ref, uni.Get("int64"), reflect.ValueOf(int64(w.Draw(1000))))
}

func (r *Run) msgOf(ref sys.Codec, t *uni.Type, v reflect.Value) *msg {
	o := &sys.Op{Kind: sys.LP, Type: t, Val: v}
	res := o.Run(ref, nil, sys.PlainIO{})
	if res.Class != "ok" {
		return nil
	}
	m := &msg{t: t, v: v, canon: uni.CanonV(v), lp: append([]byte(nil), res.Bytes...)}
	k := 0
	for m.lp[k]&0x80 != 0 {
		k++
	}
	m.body = m.lp[k+1:]
	return m
}

func (m *msg) String() string {
	return fmt.Sprintf("%s (%d bytes: %X)", m.t.Name, len(m.lp), clipBytes(m.lp, 60))
}

func clipBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// take reads one message from a source. A panic is reported as a result.
func take(c sys.Codec, src source, t *uni.Type, max int64) (v reflect.Value, n int64, err error, pan interface{}) {
	CountOp()
	v = reflect.New(t.RT)
	ok := false
	defer func() {
		if !ok {
			pan = recover()
			if pan == nil {
				pan = "destroyed"
			}
		}
	}()
	n, err = c.UnmarshalBinaryLengthPrefixedReader(src.Reader, v.Interface(), max)
	ok = true
	return
}
