package props

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"verifsim/ref"
	"verifsim/tape"
)

// Different messages that agree under some weak summary of them: whoever
// recognises, indexes or compares messages by such a summary instead of by
// their bytes takes one for the other. Random messages never do that.

// crcs are the generator polynomials of reflected checksums, the way
// hash/crc32 and hash/crc64 write them.
var crcs = []struct {
	n    uint
	poly uint64
}{
	{32, 0xedb88320}, {32, 0x82f63b78}, {32, 0xeb31d82e},
	{64, 0xd800000000000000}, {64, 0xc96c5795d7870f42},
	{16, 0xa001}, {16, 0x8408},
}

// twins are pairs of 32-byte messages (numbers, big endian) that agree in
// part of a cryptographic digest.
var twins = [][2]uint64{
	{50323, 54260},  // sha256[:4]
	{89098, 131790}, // sha256[28:]
	{19688, 70441},  // sha512[:4]
	{64831, 66120},  // sha1[:4]
	{1221, 68841},   // md5[:4]
}

// zeroFNV sums to zero under 64-bit FNV-1a, and whatever zeros follow it.
var zeroFNV = []byte{0xd5, 0x6b, 0xb9, 0x53, 0x42, 0x87, 0x08, 0x36}

// twin chooses one of two such messages, or two of different length.
func twin(s *tape.Stream, keep bool) (a, b []byte) {
	if !keep && s.P(15) {
		a = append(append([]byte{}, zeroFNV...), make([]byte, s.N(3))...)
		return a, append(append([]byte{}, a...), make([]byte, 1+s.N(30))...)
	}
	t := twins[s.N(len(twins))]
	a, b = make([]byte, 32), make([]byte, 32)
	binary.BigEndian.PutUint64(a[24:], t[0])
	binary.BigEndian.PutUint64(b[24:], t[1])
	if s.P(50) {
		a, b = b, a
	}
	return a, b
}

// fnv finds other last bytes for which the 32-bit FNV sum is the same.
func fnv(s *tape.Stream, m []byte, a bool) []byte {
	const prime = 16777619
	inv := uint32(1)
	for i := 0; i < 5; i++ {
		inv *= 2 - prime*inv
	}
	fwd := func(h uint32, c byte) uint32 {
		if a {
			return (h ^ uint32(c)) * prime
		}
		return h*prime ^ uint32(c)
	}
	back := func(h uint32, c byte) uint32 {
		if a {
			return h*inv ^ uint32(c)
		}
		return (h ^ uint32(c)) * inv
	}
	n := len(m)
	if n < 6 {
		return nil
	}
	h := uint32(2166136261)
	for _, c := range m[:n-6] {
		h = fwd(h, c)
	}
	start := h
	for _, c := range m[n-6:] {
		h = fwd(h, c)
	}
	const size = 1 << 18
	var keys, vals [size]uint32
	x := s.U()
	for i := 0; i < 1<<16; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		v := uint32(x>>40) | 1<<31
		k := fwd(fwd(fwd(start, byte(v)), byte(v>>8)), byte(v>>16))
		at := k * 2654435761 >> 14
		for vals[at] != 0 {
			at = (at + 1) % size
		}
		keys[at], vals[at] = k, v
	}
	for i := 0; i < 1<<19; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		v := uint32(x >> 40)
		k := back(back(back(h, byte(v)), byte(v>>8)), byte(v>>16))
		for at := k * 2654435761 >> 14; vals[at] != 0; at = (at + 1) % size {
			if keys[at] == k {
				w := vals[at]
				o := append([]byte{}, m[:n-6]...)
				o = append(o, byte(w), byte(w>>8), byte(w>>16), byte(v>>16), byte(v>>8), byte(v))
				if !bytes.Equal(o, m) {
					return o
				}
			}
		}
	}
	return nil
}

// lookalike makes a message different from m that agrees with it under a
// weak summary. With keep it has the same length. It returns nil if the
// chosen kind does not exist for m.
func lookalike(s *tape.Stream, m []byte, keep bool) []byte {
	b := append([]byte{}, m...)
	n := len(b)
	w := []int{5, 2, 2, 2, 2, 2, 1, 4, 0, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1}
	if keep {
		w = w[:14]
	}
	switch s.W(w...) {
	case 0: // checksum
		c := crcs[0]
		if s.P(40) {
			c = crcs[s.N(len(crcs))]
		}
		bitsN := int(c.n) + 1
		if n*8 < bitsN {
			return nil
		}
		at := s.N(n*8 - bitsN + 1)
		flip := func(i int) { b[(at+i)/8] ^= 1 << uint((at+i)%8) }
		flip(0)
		for i := 0; i < int(c.n); i++ {
			if c.poly>>uint(i)&1 == 1 {
				flip(i + 1)
			}
		}
	case 1: // sums and weighted sums: adler, fletcher
		if n < 3 {
			return nil
		}
		i := s.N(n - 2)
		d := byte(1 + s.N(3))
		b[i], b[i+1], b[i+2] = b[i]+d, b[i+1]-2*d, b[i+2]+d
	case 2: // h*M+c
		if n < 2 {
			return nil
		}
		i, k := s.N(n-1), []int{31, 33, 37, 131, 65}[s.N(5)]
		switch {
		case b[i] < 255 && int(b[i+1]) >= k:
			b[i], b[i+1] = b[i]+1, b[i+1]-byte(k)
		case b[i] > 0 && int(b[i+1])+k < 256:
			b[i], b[i+1] = b[i]-1, b[i+1]+byte(k)
		default:
			return nil
		}
	case 3: // exclusive or of words
		w := []int{1, 4, 8, 16}[s.N(4)]
		if n < 2*w {
			return nil
		}
		i := s.N(n - w)
		k := w * (1 + s.N((n-1-i)/w))
		v := byte(1 + s.N(255))
		b[i] ^= v
		b[i+k] ^= v
	case 4: // sum of words
		w := []int{1, 4, 8, 16}[s.N(4)]
		if n < 2*w {
			return nil
		}
		i := s.N(n - w)
		k := w * (1 + s.N((n-1-i)/w))
		if b[i] == 255 || b[i+k] == 0 {
			return nil
		}
		b[i]++
		b[i+k]--
	case 5: // the same bytes in another order
		if n < 2 {
			return nil
		}
		switch s.N(3) {
		case 0:
			for i := 0; i < n/2; i++ {
				b[i], b[n-1-i] = b[n-1-i], b[i]
			}
		case 1:
			i, j := s.N(n), s.N(n)
			b[i], b[j] = b[j], b[i]
		case 2:
			k := 1 + s.N(n-1)
			b = append(append([]byte{}, b[k:]...), b[:k]...)
		}
	case 6: // the same words in another order
		w := []int{4, 8, 16}[s.N(3)]
		if n < 2*w {
			return nil
		}
		i, j := s.N(n/w), s.N(n/w)
		var t [16]byte
		copy(t[:w], b[i*w:])
		copy(b[i*w:i*w+w], b[j*w:j*w+w])
		copy(b[j*w:j*w+w], t[:w])
	case 7:
		return fnv(s, m, s.P(60))
	case 9: // the same number modulo the order of the group or of the field
		if n < 32 {
			return nil
		}
		x, y := new(big.Int).SetBytes(m), ref.R
		if s.P(30) {
			y = ref.Q
		}
		if s.P(50) {
			x.Add(x, y)
		} else {
			x.Sub(x, y)
		}
		if x.Sign() < 0 || x.BitLen() > 8*n {
			return nil
		}
		b = fill(x, n)
	case 10: // letters
		for _, i := range []int{s.N(n + 1), s.N(n + 1)} {
			if i < n && (b[i]|0x20 >= 'a' && b[i]|0x20 <= 'z') {
				b[i] ^= 0x20
				return b
			}
		}
		return nil
	case 11: // seven bits
		if n == 0 {
			return nil
		}
		b[s.N(n)] ^= 0x80
	case 12: // bytes that are no text
		for i := range b {
			if b[i] >= 0xf8 {
				b[i] = 0xf8 + (b[i]+1)&7
				return b
			}
		}
		return nil
	case 13: // one byte far from both ends
		if n < 3 {
			return nil
		}
		b[n/3+s.N(n/3+1)]++
	case 14: // leading zeros
		k := []int{1, 2, 8, 31, 32, 64}[s.N(6)]
		if n > k && len(bytes.TrimLeft(b[:k], "\x00")) == 0 {
			return b[k:]
		}
		return append(make([]byte, k), b...)
	case 15: // trailing zeros
		k := []int{1, 2, 8, 32, 64}[s.N(5)]
		return append(b, make([]byte, k)...)
	case 16: // white space
		w := []byte{' ', '\n', '\t', '\r'}[s.N(4)]
		if s.P(50) {
			return append([]byte{w}, b...)
		}
		return append(b, w)
	case 17: // padding up to a block
		k := 64 - n%64
		p := append(b, 0x80)
		return append(p, make([]byte, k-1)...)
	case 18: // length modulo 256
		return append(b, make([]byte, 256)...)
	case 19:
		k := 1 + s.N(3)
		if n*k > 100000 {
			return nil
		}
		return bytes.Repeat(b, k+1)
	}
	if bytes.Equal(b, m) {
		return nil
	}
	return b
}
