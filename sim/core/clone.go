package core

import (
	"reflect"
	"strings"
	"unsafe"
)

// Clone copies the memory an object of the library consists of, so that the
// copy can be looked at without the object noticing: reading it through the
// library's own methods would let it fill in what it computes on demand.
// Memory of other packages is shared with the original.
func Clone(v interface{}) (out interface{}) {
	defer func() {
		if recover() != nil {
			out = v
		}
	}()
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Ptr || rv.IsNil() || !owned(rv.Type().Elem()) {
		return v
	}
	c := cloner{seen: map[cloneKey]unsafe.Pointer{}}
	n := reflect.New(rv.Type().Elem())
	c.seen[cloneKey{rv.Pointer(), rv.Type()}] = n.UnsafePointer()
	n.Elem().Set(rv.Elem())
	c.inside(n.Elem(), 0)
	return n.Interface()
}

type cloneKey struct {
	p uintptr
	t reflect.Type
}

type cloner struct {
	seen map[cloneKey]unsafe.Pointer
}

// owned tells whether memory of this type belongs to the library.
func owned(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		if t.PkgPath() == "" {
			return owned(t.Elem())
		}
	}
	p := t.PkgPath()
	return p == "" || p == "math/big" || strings.HasPrefix(p, "github.com/phoreproject/bls") && !strings.Contains(p, "zzverif/sim")
}

// inside replaces what v, a copy already, refers to by copies.
func (c *cloner) inside(v reflect.Value, depth int) {
	if depth > 12 || !owned(v.Type()) {
		return
	}
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || !owned(v.Type().Elem()) {
			return
		}
		k := cloneKey{v.Pointer(), v.Type()}
		if p, ok := c.seen[k]; ok {
			v.Set(reflect.NewAt(v.Type().Elem(), p).Convert(v.Type()))
			return
		}
		n := reflect.New(v.Type().Elem())
		c.seen[k] = n.UnsafePointer()
		n.Elem().Set(v.Elem())
		v.Set(n.Convert(v.Type()))
		c.inside(n.Elem(), depth+1)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || !owned(v.Type().Elem()) {
			return
		}
		full := v.Slice3(0, v.Cap(), v.Cap())
		n := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
		reflect.Copy(n, full)
		for i := 0; i < n.Len(); i++ {
			if !flat(v.Type().Elem()) {
				c.inside(n.Index(i), depth+1)
			}
		}
		v.Set(n.Slice3(0, v.Len(), v.Cap()))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c.inside(v.Field(i), depth)
		}
	case reflect.Array:
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			c.inside(v.Index(i), depth)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		for it := v.MapRange(); it.Next(); {
			n.SetMapIndex(it.Key(), it.Value())
		}
		v.Set(n)
	}
}

// flat tells whether values of the type refer to nothing.
func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return false
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
	case reflect.Array:
		return flat(t.Elem())
	}
	return true
}
