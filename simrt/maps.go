package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// What chance decides in the code under test, such as the order of the entries
// of a map, follows a fixed sequence, which starts anew with each case.

// Random returns the next number of the sequence.

//go:norace
func Random() uint64 {
	nrandom++
	z := nrandom * 0x9e3779b97f4a7c15
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Iter goes through a map.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func MapIter[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *Iter[K, V]) {
	it = &Iter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	l := it.keys
	less := func(a, b reflect.Value) bool { return fmt.Sprint(a) < fmt.Sprint(b) }
	switch reflect.TypeOf(&k).Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		less = func(a, b reflect.Value) bool { return a.Int() < b.Int() }
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		less = func(a, b reflect.Value) bool { return a.Uint() < b.Uint() }
	case reflect.Float32, reflect.Float64:
		less = func(a, b reflect.Value) bool { return a.Float() < b.Float() }
	case reflect.String:
		less = func(a, b reflect.Value) bool { return a.String() < b.String() }
	}
	sort.SliceStable(l, func(i, j int) bool { return less(reflect.ValueOf(l[i]), reflect.ValueOf(l[j])) })
	s := Random() | 1
	for i := len(l) - 1; i > 0; i-- {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		j := int(s % uint64(i+1))
		l[i], l[j] = l[j], l[i]
	}
	return k, v, it
}

// Next stores the next entry where the pointers that are not nil point.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
