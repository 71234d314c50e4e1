package props

import (
	"bytes"
	"reflect"
	"unsafe"
)

// region is a piece of memory being watched.
type region struct {
	p    unsafe.Pointer
	n    uintptr
	snap []byte
}

// memory collects the memory reachable from the roots.
type memory struct {
	roots []interface{}
	regs  []region
	seen  map[uintptr]uintptr
	total uintptr
}

const maxMemory = 1 << 18

func newMemory(roots []interface{}) *memory {
	m := &memory{roots: roots}
	m.scan()
	return m
}

func (m *memory) scan() {
	m.regs, m.total = nil, 0
	m.seen = map[uintptr]uintptr{}
	for _, r := range m.roots {
		v := reflect.ValueOf(r)
		if v.Kind() == reflect.Ptr && !v.IsNil() {
			m.ptr(v, 0)
		}
	}
}

func (m *memory) add(p uintptr, n uintptr, up unsafe.Pointer) bool {
	if n == 0 || p == 0 || m.total+n > maxMemory {
		return false
	}
	if old, ok := m.seen[p]; ok && old >= n {
		return false
	}
	m.seen[p] = n
	m.total += n
	b := make([]byte, n)
	copy(b, unsafe.Slice((*byte)(up), n))
	m.regs = append(m.regs, region{up, n, b})
	return true
}

func (m *memory) ptr(v reflect.Value, depth int) {
	if v.IsNil() || depth > 8 {
		return
	}
	e := v.Elem()
	if !m.add(v.Pointer(), e.Type().Size(), v.UnsafePointer()) {
		return
	}
	m.inside(e, depth)
}

func (m *memory) inside(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		m.ptr(v, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			m.inside(v.Field(i), depth)
		}
	case reflect.Array:
		if hasPtr(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				m.inside(v.Index(i), depth)
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		n := uintptr(v.Cap()) * v.Type().Elem().Size()
		if !m.add(v.Pointer(), n, v.UnsafePointer()) {
			return
		}
		if hasPtr(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				m.inside(v.Index(i), depth+1)
			}
		}
	case reflect.Map: // the number of entries
		if !v.IsNil() {
			m.add(v.Pointer(), 8, v.UnsafePointer())
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			m.ptr(v.Elem(), depth+1)
		}
	}
}

func hasPtr(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Interface, reflect.Map, reflect.Chan, reflect.Func, reflect.String:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPtr(t.Field(i).Type) {
				return true
			}
		}
	case reflect.Array:
		return hasPtr(t.Elem())
	}
	return false
}

// changed reports whether any watched byte changed since the last call.
func (m *memory) changed() bool {
	ch := false
	for i := range m.regs {
		r := &m.regs[i]
		if !bytes.Equal(r.snap, unsafe.Slice((*byte)(r.p), r.n)) {
			ch = true
			break
		}
	}
	if ch {
		m.scan()
	}
	return ch
}
