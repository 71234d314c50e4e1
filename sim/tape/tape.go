// Package tape is the only source of choices in a simulation: named,
// independent streams of numbers. A fresh tape derives every stream from one
// seed; a recorded tape replays the numbers it holds and continues with
// zeros, which every consumer treats as "nothing, no fault, the simplest
// value". The independence of the streams lets the minimiser remove one
// operation or one fault without disturbing the others.
package tape

import (
	"math/bits"
	"sort"
)

// Tape is a set of streams.
type Tape struct {
	Seed  uint64
	fixed map[string][]uint64
	m     map[string]*Stream
	Draws int
}

// Stream is one sequence of choices.
type Stream struct {
	t    *Tape
	name string
	x    uint64
	fix  []uint64
	rec  []uint64
	rep  bool
}

// New makes a tape that generates.
func New(seed uint64) *Tape { return &Tape{Seed: seed, m: map[string]*Stream{}} }

// Replay makes a tape that repeats recorded choices.
func Replay(rec map[string][]uint64) *Tape {
	return &Tape{fixed: rec, m: map[string]*Stream{}}
}

// Mix is a 64-bit finaliser.
func Mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

// HashString folds a string into a number.
func HashString(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001B3
	}
	return Mix(h)
}

// S returns the stream of that name.
func (t *Tape) S(name string) *Stream {
	if s, ok := t.m[name]; ok {
		return s
	}
	s := &Stream{t: t, name: name}
	if t.fixed != nil {
		s.rep = true
		s.fix = t.fixed[name]
	} else {
		s.x = HashString(Mix(t.Seed), name)
	}
	t.m[name] = s
	return s
}

// Recorded returns all choices made so far.
func (t *Tape) Recorded() map[string][]uint64 {
	out := map[string][]uint64{}
	for n, s := range t.m {
		r := s.rec
		for len(r) > 0 && r[len(r)-1] == 0 {
			r = r[:len(r)-1]
		}
		if len(r) > 0 {
			out[n] = append([]uint64{}, r...)
		}
	}
	return out
}

// Names of the streams in use.
func (t *Tape) Names() []string {
	var out []string
	for n := range t.m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (s *Stream) put(v uint64) uint64 {
	s.rec = append(s.rec, v)
	s.t.Draws++
	return v
}

func (s *Stream) next() uint64 {
	s.x += 0x9E3779B97F4A7C15
	x := s.x
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

func (s *Stream) raw(n uint64) uint64 {
	if s.rep {
		var v uint64
		if len(s.rec) < len(s.fix) {
			v = s.fix[len(s.rec)]
		}
		if n != 0 {
			v %= n
		}
		return s.put(v)
	}
	v := s.next()
	if n != 0 {
		h, _ := bits.Mul64(v, n)
		v = h
	}
	return s.put(v)
}

// N chooses a number in [0, n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.raw(uint64(n)))
}

// U chooses a 64-bit number.
func (s *Stream) U() uint64 { return s.raw(0) }

// P is true in pct percent of the cases; the simplest choice is false.
func (s *Stream) P(pct int) bool { return s.N(100) >= 100-pct }

// Permille is P in thousandths.
func (s *Stream) Permille(p int) bool { return s.N(1000) >= 1000-p }

// W chooses an index with the given weights; index 0 is the simplest.
func (s *Stream) W(w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	v := s.N(tot)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Bytes makes n bytes from one choice; choice 0 gives zeros.
func (s *Stream) Bytes(n int) []byte {
	out := make([]byte, n)
	x := s.U()
	if x == 0 {
		return out
	}
	Fill(out, x)
	return out
}

// Fill writes the byte stream belonging to x.
func Fill(out []byte, x uint64) {
	x = Mix(x)
	for i := 0; i < len(out); {
		x += 0x9E3779B97F4A7C15
		v := Mix(x)
		for k := 0; k < 8 && i < len(out); k++ {
			out[i] = byte(v >> (8 * uint(k)))
			i++
		}
	}
}

// Perm chooses a permutation (identity is the simplest).
func (s *Stream) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i+1 < n; i++ {
		j := i + s.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
