package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"runtime/debug"
	"slices"
	"sort"
)

func stack() []byte { return debug.Stack() }

// Map order modes.
const (
	MapSorted = iota
	MapReversed
	MapShuffled
	MapRotated
)

var (
	mapMode int
	mapRng  Rand
	mapIter uint64
)

// SetMapOrder fixes the iteration order of all maps for the run.
//
//go:norace
func SetMapOrder(mode int, seed uint64) {
	mapMode, mapRng, mapIter = mode, Rand{seed}, 0
}

// MapIterations counts map iterations of at least two entries since SetMapOrder.
//
//go:norace
func MapIterations() uint64 { return mapIter }

//go:norace
func permute(n int, swap func(i, j int)) {
	if n < 2 {
		return
	}
	mapIter++
	switch mapMode {
	case MapReversed:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case MapShuffled:
		for i := n - 1; i > 0; i-- {
			if j := mapRng.Intn(i + 1); i != j {
				swap(i, j)
			}
		}
	case MapRotated:
		// what Go's runtime mostly does for small maps: a random starting point
		k := mapRng.Intn(n)
		rev := func(a, b int) {
			for a < b {
				swap(a, b)
				a, b = a+1, b-1
			}
		}
		rev(0, k-1)
		rev(k, n-1)
		rev(0, n-1)
	}
}

// Keys returns the keys of m in the simulator's order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// Map iterates over m like a range statement does, in the simulator's order.
func Map[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		for _, k := range Keys(m) {
			v, ok := m[k]
			if !ok {
				if k == k {
					continue // deleted during the iteration
				}
				// NaN keys cannot be looked up; none occur in practice
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
	case []uint16:
		slices.Sort(ks)
	case []rune:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	case []uint32:
		slices.Sort(ks)
	case []uint8:
		slices.Sort(ks)
	default:
		vals := make([]reflect.Value, len(keys))
		for i := range keys {
			vals[i] = reflect.ValueOf(&keys[i]).Elem()
		}
		idx := make([]int, len(keys))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return CompareValues(vals[idx[i]], vals[idx[j]]) < 0 })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		copy(keys, out)
	}
}

// CompareValues orders values of one type by content.
func CompareValues(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Bool:
		x, y := 0, 0
		if a.Bool() {
			x = 1
		}
		if b.Bool() {
			y = 1
		}
		return x - y
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(a.Float(), b.Float())
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := CompareValues(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := CompareValues(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			x, y := 0, 0
			if !a.IsNil() {
				x = 1
			}
			if !b.IsNil() {
				y = 1
			}
			return x - y
		}
		if a.Kind() == reflect.Interface && a.Elem().Type() != b.Elem().Type() {
			return cmp.Compare(a.Elem().Type().String(), b.Elem().Type().String())
		}
		return cmp.Compare(fmt.Sprintf("%+v", a.Elem()), fmt.Sprintf("%+v", b.Elem()))
	}
	return 0
}
