//go:build go1.21

package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// KV is one map entry.
type KV[K comparable, V any] struct {
	K K
	V V
}

// MapSeed changes the order in which maps are iterated.
var MapSeed uint64

// Entries lists a map in an order decided by MapSeed.
func Entries[M ~map[K]V, K comparable, V any](m M) []KV[K, V] {
	out := make([]KV[K, V], 0, len(m))
	keys := make([]string, 0, len(m))
	for k, v := range m {
		out = append(out, KV[K, V]{k, v})
	}
	for i := range out {
		keys = append(keys, fmt.Sprintf("%v", out[i].K))
	}
	sort.Sort(&kvSort[K, V]{out, keys})
	s := MapSeed
	if s != 0 {
		for i := len(out) - 1; i > 0; i-- {
			s ^= s << 13
			s ^= s >> 7
			s ^= s << 17
			j := int(s % uint64(i+1))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

type kvSort[K comparable, V any] struct {
	e []KV[K, V]
	k []string
}

func (s *kvSort[K, V]) Len() int           { return len(s.e) }
func (s *kvSort[K, V]) Less(i, j int) bool { return s.k[i] < s.k[j] }
func (s *kvSort[K, V]) Swap(i, j int) {
	s.e[i], s.e[j] = s.e[j], s.e[i]
	s.k[i], s.k[j] = s.k[j], s.k[i]
}

// GoCall starts a named function as a task.
func GoCall(t *Task, fn interface{}, args ...interface{}) {
	GoEnter(t)
	defer GoExit(t)
	f := reflect.ValueOf(fn)
	ft := f.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			v := reflect.ValueOf(a)
			if !v.Type().AssignableTo(pt) {
				v = v.Convert(pt)
			}
			in[i] = v
		}
	}
	f.Call(in)
}
