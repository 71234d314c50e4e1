package props

import (
	"sort"

	"verifsim/sim"
	"verifsim/tape"
)

// frame is one message in flight.
type frame struct {
	at   int64
	seq  int
	from int
	to   int
	body interface{}
	b    [][]byte // the bytes that can be damaged
	bad  bool     // was damaged
}

// Net is a simulated network: it loses, duplicates, delays, reorders and
// damages frames and can be partitioned.
type Net struct {
	r      *sim.Run
	s      *tape.Stream
	q      []*frame
	now    int64
	seq    int
	level  int // percent of frames that meet a fault
	part   map[int]int
	old    [][]byte // bytes seen earlier, for splicing
	quiet  bool     // no more faults
	damage bool
}

func newNet(r *sim.Run, s *tape.Stream, level int) *Net {
	return &Net{r: r, s: s, level: level, part: map[int]int{}}
}

// Send puts a frame on the way.
func (n *Net) Send(from, to int, body interface{}, b ...[]byte) {
	f := &frame{from: from, to: to, body: body}
	for _, x := range b {
		f.b = append(f.b, append([]byte{}, x...))
		if len(n.old) < 40 {
			n.old = append(n.old, append([]byte{}, x...))
		}
	}
	d := int64(1)
	if n.quiet {
		n.push(f, d)
		return
	}
	if n.part[from] != n.part[to] {
		n.r.Fault("frame lost in a partition")
		return
	}
	if n.level > 0 {
		d += int64(n.s.N(4))
	}
	copies := 1
	if n.s.P(n.level) {
		switch n.s.N(4) {
		case 0:
			n.r.Fault("frame lost")
			return
		case 1:
			n.r.Fault("frame duplicated")
			copies = 2 + n.s.N(2)
		case 2:
			n.r.Fault("frame delayed")
			d += int64(5 + n.s.N(40))
		case 3:
			if n.damage && len(f.b) > 0 {
				i := n.s.N(len(f.b))
				var o []byte
				if len(n.old) > 0 {
					o = n.old[n.s.N(len(n.old))]
				}
				was := string(f.b[i])
				f.b[i] = damage(n.r, n.s, f.b[i], o)
				f.bad = string(f.b[i]) != was
			}
		}
	}
	for i := 0; i < copies; i++ {
		n.push(f, d)
		d += int64(n.s.N(6))
	}
}

func (n *Net) push(f *frame, d int64) {
	g := *f
	g.at = n.now + d
	g.seq = n.seq
	n.seq++
	n.q = append(n.q, &g)
	sort.Slice(n.q, func(i, j int) bool {
		if n.q[i].at != n.q[j].at {
			return n.q[i].at < n.q[j].at
		}
		return n.q[i].seq < n.q[j].seq
	})
}

// Tick advances time by one and returns the frames that arrive.
func (n *Net) Tick() []*frame {
	n.now++
	n.r.Ticks++
	var out []*frame
	for len(n.q) > 0 && n.q[0].at <= n.now {
		out = append(out, n.q[0])
		n.q = n.q[1:]
	}
	return out
}

// Split partitions nodes into two sides at random.
func (n *Net) Split(nodes int) {
	for i := 0; i < nodes; i++ {
		n.part[i] = n.s.N(2)
	}
	n.r.Fault("network partitioned")
}

// Heal ends partitions.
func (n *Net) Heal() { n.part = map[int]int{} }
