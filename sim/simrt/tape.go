package simrt

// A Tape is a stream of choices.  Every nondeterministic decision of a run is
// drawn from one of its tapes, so that a run is a pure function of them, and a
// failure is minimised by shrinking them: choice 0 is always the plainest one.
type Tape struct {
	state  uint64
	replay bool
	in     []uint32
	pos    int
	rec    []uint32
	n      int
}

const maxTape = 1 << 20

// NewTape returns a tape that draws pseudo-random choices and records them.
func NewTape(seed uint64) *Tape {
	return &Tape{state: seed ^ 0x9E3779B97F4A7C15, rec: make([]uint32, maxTape)}
}

// NewTape2 returns a tape that records nothing.
func NewTape2(seed uint64) *Tape { return &Tape{state: seed ^ 0x9E3779B97F4A7C15} }

// Reset reuses the tape's memory for another run.
//
//go:norace
func (t *Tape) Reset(seed uint64) {
	t.state = seed ^ 0x9E3779B97F4A7C15
	t.replay = false
	t.in = nil
	t.pos = 0
	t.n = 0
}

// SetReplay makes the tape return the given choices, and then only zeroes.
//
//go:norace
func (t *Tape) SetReplay(in []uint32) {
	t.replay = true
	t.in = in
	t.pos = 0
	t.n = 0
}

// Recorded returns a copy of the choices made.
//
//go:norace
func (t *Tape) Recorded() []uint32 {
	n := t.n
	for n > 0 && t.rec[n-1] == 0 {
		n--
	}
	out := make([]uint32, n)
	for i := 0; i < n; i++ {
		out[i] = t.rec[i]
	}
	return out
}

//go:norace
func (t *Tape) next() uint64 {
	t.state += 0x9E3779B97F4A7C15
	z := t.state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Draw returns a choice in [0, n).
//
//go:norace
func (t *Tape) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if t.replay {
		if t.pos < len(t.in) {
			v = t.in[t.pos] % uint32(n)
			t.pos++
		}
	} else {
		v = uint32((t.next() >> 11) % uint64(n))
	}
	if t.n < len(t.rec) {
		t.rec[t.n] = v
		t.n++
	}
	return int(v)
}

// Chance is true with probability num/den; false is the plain choice.
//
//go:norace
func (t *Tape) Chance(num, den int) bool {
	return t.Draw(den) >= den-num
}

// Bytes returns n arbitrary bytes.
func (t *Tape) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(t.Draw(256))
	}
	return b
}

// Perm returns a permutation of [0, n); the identity is the plain choice.
func (t *Tape) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.Draw(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// U64 returns an arbitrary 64-bit number.
func (t *Tape) U64() uint64 {
	return uint64(t.Draw(1<<16))<<48 | uint64(t.Draw(1<<16))<<32 | uint64(t.Draw(1<<16))<<16 | uint64(t.Draw(1<<16))
}

// Pick returns an index chosen with the given weights.
func (t *Tape) Pick(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := t.Draw(sum)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}
