package props

import (
	"errors"
	"reflect"

	"verifsim/tape"
)

func nilOf(v interface{}) interface{} { return reflect.Zero(reflect.TypeOf(v)).Interface() }

// zeroOf is a fresh zero value of the object's type.
func zeroOf(v interface{}) interface{} {
	return reflect.New(reflect.TypeOf(v).Elem()).Interface()
}

// byteSrc is an endless reproducible byte stream.
type byteSrc struct {
	seed  uint64
	patch map[int]byte
	zero  int // this many leading zero bytes
	ones  int // this many leading 0xff bytes
}

func newByteSrc(seed []byte) *byteSrc {
	x := uint64(0)
	for _, b := range seed {
		x = x<<8 | uint64(b)
	}
	return &byteSrc{seed: x}
}

func (b *byteSrc) at(i int) byte {
	if v, ok := b.patch[i]; ok {
		return v
	}
	if i < b.ones {
		return 0xff
	}
	if i < b.ones+b.zero {
		return 0
	}
	x := tape.Mix(b.seed + uint64(i/8)*0x9E3779B97F4A7C15)
	return byte(x >> (8 * uint(i%8)))
}

var errSource = errors.New("simulated source failure")

// faultReader delivers the stream until a byte position, then fails.
type faultReader struct {
	src    *byteSrc
	pos    int
	failAt int
	mode   int // 1 error, 2 panic, 3 short read with the error
}

func (f *faultReader) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) && f.pos < f.failAt {
		p[n] = f.src.at(f.pos)
		n++
		f.pos++
	}
	if f.pos >= f.failAt && n < len(p) {
		switch f.mode {
		case 2:
			panic("simulated source panic")
		case 3:
			return n, errSource
		}
		if n > 0 {
			return n, nil
		}
		return 0, errSource
	}
	return n, nil
}
