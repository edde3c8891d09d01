package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Rand64 is the program's random source.
func Rand64() uint64 {
	w := W
	if w == nil {
		return 0x123456789abcdef
	}
	if c, ok := w.chosenDraw(); ok {
		return c
	}
	w.rand += 0x9e3779b97f4a7c15
	z := w.rand
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// RandOf is x, which a source of the program's own gave, unless the simulator
// chooses the draws.
func RandOf(x uint64) uint64 {
	if W != nil {
		if c, ok := W.chosenDraw(); ok {
			return c
		}
	}
	return x
}

// chosenDraw counts a draw of the program and tells what it must give, if that is chosen.
func (w *World) chosenDraw() (uint64, bool) {
	w.Draws++
	if w.RandFn != nil {
		if c, ok := w.RandFn(w.Draws - 1); ok {
			return uint64(c*(1<<53)) << 11, true
		}
	}
	if w.randFix != nil && w.Draws > w.randFrom {
		return uint64(*w.randFix*(1<<53)) << 11, true
	}
	return 0, false
}

// SeedRand re-seeds the program's random source.
func SeedRand(s uint64) {
	if W != nil {
		W.rand = mix(s)
	}
}

// MapIt iterates a map in an order chosen by the simulator.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts an iteration: it, k, v, ok.
func MapIter[K comparable, V any](m map[K]V) (*MapIt[K, V], K, V, bool) {
	it := &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if w := W; w != nil && len(it.keys) > 1 && !w.FixMaps {
		for i := len(it.keys) - 1; i > 0; i-- {
			j := w.Choice(i + 1)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	k, v, ok := it.Next()
	return it, k, v, ok
}

// MapIterK starts an iteration over keys only.
func MapIterK[K comparable, V any](m map[K]V) (*MapIt[K, V], K, bool) {
	it, k, _, ok := MapIter(m)
	return it, k, ok
}

// MapIter0 starts an iteration that ignores keys and values.
func MapIter0[K comparable, V any](m map[K]V) (*MapIt[K, V], bool) {
	it, _, _, ok := MapIter(m)
	return it, ok
}

// Next advances.
func (it *MapIt[K, V]) Next() (K, V, bool) {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			return k, v, true
		}
	}
	var k K
	var v V
	return k, v, false
}

// NextK advances, key only.
func (it *MapIt[K, V]) NextK() (K, bool) {
	k, _, ok := it.Next()
	return k, ok
}

// Next0 advances, no values.
func (it *MapIt[K, V]) Next0() bool {
	_, _, ok := it.Next()
	return ok
}

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
		return
	case []int:
		sort.Ints(x)
		return
	case []uint64:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return
	}
	rk := reflect.TypeOf(ks).Elem().Kind()
	sort.Slice(ks, func(i, j int) bool {
		a, b := reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])
		switch rk {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return a.Int() < b.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return a.Uint() < b.Uint()
		case reflect.Float32, reflect.Float64:
			return a.Float() < b.Float()
		case reflect.String:
			return a.String() < b.String()
		}
		return fmt.Sprintf("%#v", ks[i]) < fmt.Sprintf("%#v", ks[j])
	})
}

// MapPtr identifies a map.
func MapPtr[K comparable, V any](m map[K]V) uintptr { return reflect.ValueOf(m).Pointer() }
