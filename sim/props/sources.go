package props

import (
	"errors"
	"io"
	"os"
)

// The value a generator draws may depend on the bytes of the source only, not
// on what else the source can do. So sources come in several types.

// scanSource can also be read, and read again, by the byte, like a
// bytes.Reader or a strings.Reader.
type scanSource struct{ *simReader }

func (f scanSource) ReadByte() (byte, error) {
	if e := f.pend; e != nil {
		f.pend = nil
		return 0, e
	}
	var b [1]byte
	for {
		n, err := f.simReader.Read(b[:])
		if n == 1 {
			f.pend = err
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (f scanSource) UnreadByte() error {
	if f.pos == 0 {
		return errors.New("nothing to unread")
	}
	f.pos--
	return nil
}

func (f scanSource) Read(p []byte) (int, error) {
	if e := f.pend; e != nil {
		f.pend = nil
		return 0, e
	}
	return f.simReader.Read(p)
}

// Len is the number of bytes that are there right now.
func (f scanSource) Len() int {
	n := 64
	if e := f.next(); e != nil && e.pos >= f.pos {
		n = e.pos - f.pos
	}
	return n
}

// peekSource looks ahead like a bufio.Reader.
type peekSource struct{ scanSource }

func (f peekSource) Buffered() int { return f.Len() }

func (f peekSource) Peek(n int) ([]byte, error) {
	if f.dead != nil {
		return nil, f.dead
	}
	p := make([]byte, n)
	at := f.pos
	f.fill(p)
	f.pos = at
	return p, nil
}

func (f peekSource) Discard(n int) (int, error) {
	for i := 0; i < n; i++ {
		if _, err := f.ReadByte(); err != nil {
			return i, err
		}
	}
	return n, nil
}

// fileSource is like a file.
type fileSource struct{ *simReader }

func (f fileSource) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = int(off)
	case io.SeekCurrent:
		f.pos += int(off)
	default:
		return int64(f.pos), errors.New("the source has no end")
	}
	return int64(f.pos), nil
}

func (f fileSource) ReadAt(p []byte, off int64) (int, error) {
	at := f.pos
	f.pos = int(off)
	f.fill(p)
	f.pos = at
	return len(p), nil
}

func (f fileSource) Name() string { return "/dev/simulated" }

func (f fileSource) Close() error {
	f.dead = os.ErrClosed
	return nil
}

// odd is a source whose type cannot be compared or be the key of a map.
type oddSource struct {
	*simReader
	tags []string
}

func (f oddSource) Read(p []byte) (int, error) { return f.simReader.Read(p) }

// funcSource is a source that is a function.
type funcSource func(p []byte) (int, error)

func (f funcSource) Read(p []byte) (int, error) { return f(p) }

var sourceTypes = []string{"plain", "scanner", "peeker", "file", "uncomparable", "function"}

// typed is the source as the library sees it.
func (f *simReader) typed() io.Reader {
	switch f.kind {
	case 1:
		return scanSource{f}
	case 2:
		return peekSource{scanSource{f}}
	case 3:
		return fileSource{f}
	case 4:
		return oddSource{simReader: f}
	case 5:
		return funcSource(f.Read)
	}
	return f
}
