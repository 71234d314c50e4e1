package props

import (
	"errors"

	"verifsim/sim"
	"verifsim/tape"
)

var (
	errIO   = errors.New("simulated I/O error")
	errFull = errors.New("simulated disk full")
)

// Disk is a simulated block device behind a write-back cache. Only synced
// sectors are sure to survive a crash.
type Disk struct {
	r     *sim.Run
	s     *tape.Stream
	ss    int    // sector size
	slot  int    // slot size
	dur   []byte // on the platter
	cache []byte // as the running system sees it
	dirty map[int]bool
	level int // how faulty
}

func newDisk(r *sim.Run, s *tape.Stream, slots, slot, level int) *Disk {
	d := &Disk{r: r, s: s, ss: []int{8, 16, 32, 64, 128}[s.N(5)], level: level}
	d.slot = (slot + d.ss - 1) / d.ss * d.ss
	d.dur = make([]byte, slots*d.slot)
	d.cache = make([]byte, len(d.dur))
	if s.P(50) { // the medium held something else before
		tape.Fill(d.dur, s.U())
		copy(d.cache, d.dur)
	}
	d.dirty = map[int]bool{}
	return d
}

// Write stores a record. The device may lie about it.
func (d *Disk) Write(slot int, b []byte) error {
	n := len(d.dur) / d.slot
	switch d.s.W(60, d.level, d.level, d.level, d.level) {
	case 1:
		d.r.Fault("lost write")
		return nil
	case 2:
		d.r.Fault("misdirected write")
		slot = d.s.N(n)
	case 3:
		d.r.Fault("short write, disk full")
		b = b[:d.s.N(len(b)+1)]
		d.put(slot, b)
		return errFull
	case 4:
		d.r.Fault("write error")
		return errIO
	}
	d.put(slot, b)
	return nil
}

func (d *Disk) put(slot int, b []byte) {
	at := slot * d.slot
	copy(d.cache[at:], b)
	for i := at / d.ss; i <= (at+len(b)-1)/d.ss && len(b) > 0; i++ {
		d.dirty[i] = true
	}
}

// Sync makes written sectors durable; the device may lie.
func (d *Disk) Sync() {
	if d.level > 0 && d.s.P(d.level) {
		d.r.Fault("sync without effect")
		return
	}
	for i := range d.dur {
		if d.dirty[i/d.ss] {
			d.dur[i] = d.cache[i]
		}
	}
	d.dirty = map[int]bool{}
}

// Crash loses the cache: every unsynced sector is old, new, or torn.
func (d *Disk) Crash() {
	n := len(d.dur) / d.ss
	for i := 0; i < n; i++ {
		if !d.dirty[i] {
			continue
		}
		at := i * d.ss
		switch d.s.W(4, 4, 2) {
		case 1:
			copy(d.dur[at:at+d.ss], d.cache[at:at+d.ss])
		case 2:
			k := d.s.N(d.ss + 1)
			copy(d.dur[at:at+k], d.cache[at:at+k])
			d.r.Fault("torn sector")
		default:
			d.r.Fault("unsynced sector lost")
		}
	}
	copy(d.cache, d.dur)
	d.dirty = map[int]bool{}
	d.r.Fault("crash and restart")
}

// Rot damages stored bytes.
func (d *Disk) Rot(slot, n int) {
	at := slot*d.slot + d.s.N(n)
	switch d.s.N(4) {
	case 0, 1:
		x := byte(1) << uint(d.s.N(8))
		d.dur[at] ^= x
		d.cache[at] ^= x
		d.r.Fault("bit flip on the medium")
	case 2:
		k := at / d.ss * d.ss
		for i := k; i < k+d.ss; i++ {
			d.dur[i], d.cache[i] = 0, 0
		}
		d.r.Fault("sector zeroed")
	case 3:
		v := d.s.U()
		d.dur[at], d.cache[at] = byte(v), byte(v)
		d.r.Fault("byte overwritten on the medium")
	}
}

// Read returns n bytes of a slot.
func (d *Disk) Read(slot, n int) ([]byte, error) {
	if d.level > 0 {
		switch d.s.W(60, d.level, d.level) {
		case 1:
			d.r.Fault("read error")
			return nil, errIO
		case 2:
			d.r.Fault("misdirected read")
			slot = d.s.N(len(d.dur) / d.slot)
		}
	}
	at := slot * d.slot
	return append([]byte{}, d.cache[at:at+n]...), nil
}

// damage alters a frame in transit.
func damage(r *sim.Run, s *tape.Stream, b, other []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	switch s.N(9) {
	case 7, 8:
		for i := 0; i < 4; i++ {
			if o := lookalike(s, b, true); o != nil {
				r.Fault("damage that keeps a checksum, a sum or a set of bytes")
				return o
			}
		}
	case 0, 1:
		b[s.N(len(b))] ^= 1 << uint(s.N(8))
		r.Fault("bit flipped in transit")
	case 2:
		b[0] ^= byte(1+s.N(7)) << 5
		r.Fault("flag bits altered")
	case 3:
		if len(other) > 0 {
			k := s.N(len(b))
			copy(b[k:], other[min(k, len(other)):])
			r.Fault("frames spliced")
		}
	case 4:
		k := s.N(len(b))
		for i := k; i < len(b); i++ {
			b[i] = 0
		}
		r.Fault("frame truncated")
	case 5:
		i, j := s.N(len(b)), s.N(len(b))
		b[i], b[j] = b[j], b[i]
		r.Fault("bytes swapped")
	case 6:
		k := s.N(len(b))
		b[k] = byte(s.U())
		r.Fault("byte altered in transit")
	}
	return b
}
