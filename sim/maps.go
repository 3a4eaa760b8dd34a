//go:build go1.21

package verifsim

import (
	"reflect"
	"sort"
)

// MapIter returns what the rewritten "for k, v := range m" needs: the map, its keys in the order
// of this iteration, a counter, and loop variables.
func MapIter[M ~map[K]V, K comparable, V any](m M) (mm M, keys []K, i int, k K, v V) {
	keys = make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sortKeys(keys)
		if seed := mapSeed(); seed != 0 {
			x := seed
			for i := len(keys) - 1; i > 0; i-- {
				x = mix(x)
				j := int(x % uint64(i+1))
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return m, keys, 0, k, v
}

//go:norace
func mapSeed() uint64 {
	r := rs
	if r == nil {
		return 0
	}
	op()
	flush()
	t := cur
	if r.cfg.Replay {
		if d, ok := r.other(t, kMap); ok {
			r.res.Faults[kMap]++
			r.decs = append(r.decs, d)
			return uint64(d.c)
		}
		return 0
	}
	if !r.chance(r.cfg.PMap, 256) {
		return 0
	}
	s := r.rnd()>>16 | 1
	r.res.Faults[kMap]++
	r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kMap, c: int64(s)})
	return s
}

func sortKeys[K comparable](keys []K) {
	var z K
	ty := reflect.TypeOf(&z).Elem()
	var less func(a, b reflect.Value) int
	switch ty.Kind() {
	case reflect.Interface, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.String, reflect.Bool, reflect.Struct, reflect.Array:
		less = cmpValue
	default:
		return
	}
	sort.SliceStable(keys, func(i, j int) bool {
		return less(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem()) < 0
	})
}

func cmpValue(a, b reflect.Value) int {
	if a.Kind() == reflect.Interface {
		a, b = a.Elem(), b.Elem()
		if !a.IsValid() || !b.IsValid() {
			return b2i(a.IsValid()) - b2i(b.IsValid())
		}
		if a.Type() != b.Type() {
			if a.Type().String() < b.Type().String() {
				return -1
			}
			return 1
		}
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return b2i(a.Int() > b.Int()) - b2i(a.Int() < b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return b2i(a.Uint() > b.Uint()) - b2i(a.Uint() < b.Uint())
	case reflect.Float32, reflect.Float64:
		return b2i(a.Float() > b.Float()) - b2i(a.Float() < b.Float())
	case reflect.String:
		return b2i(a.String() > b.String()) - b2i(a.String() < b.String())
	case reflect.Bool:
		return b2i(a.Bool()) - b2i(b.Bool())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpValue(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpValue(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
	}
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
