// Package simrand replaces crypto/rand in the instrumented library: the
// process-wide source is a deterministic stream.
package simrand

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"io"
	"math/big"
)

type det struct {
	n   uint64
	buf []byte
}

func (d *det) Read(p []byte) (int, error) {
	for len(d.buf) < len(p) {
		var c [8]byte
		binary.BigEndian.PutUint64(c[:], d.n)
		d.n++
		h := sha256.Sum256(c[:])
		d.buf = append(d.buf, h[:]...)
	}
	n := copy(p, d.buf)
	d.buf = d.buf[n:]
	return n, nil
}

// Reader is the process-wide source.
var Reader io.Reader = &det{}

// Read fills b from Reader.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Int is crypto/rand.Int.
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }

// Prime is crypto/rand.Prime.
func Prime(r io.Reader, bits int) (*big.Int, error) { return crand.Prime(r, bits) }
