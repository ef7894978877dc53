package rt

import (
	"fmt"
	"sort"
)

// Order selects the iteration order of map ranges.
type Order int

const (
	Native Order = iota
	Sorted
	Reversed
	Chosen
)

var (
	order  Order
	choose func(n int) []int // permutation of 0..n-1 or nil for sorted
)

// SetOrder selects the order of map ranges from now on. choose is used with
// Chosen: it is asked once per executed range loop over more than one key.
func SetOrder(o Order, f func(n int) []int) { order = o; choose = f }

// It iterates over a map.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func begin[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it := &It[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if order != Native && len(it.keys) > 1 {
		sortKeys(it.keys)
		switch order {
		case Reversed:
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		case Chosen:
			if choose != nil {
				if p := choose(len(it.keys)); p != nil {
					ks := make([]K, len(it.keys))
					for i, j := range p {
						ks[i] = it.keys[j]
					}
					it.keys = ks
				}
			}
		}
	}
	return it
}

func sortKeys[K comparable](ks []K) {
	switch k := any(ks).(type) {
	case []string:
		sort.Strings(k)
	case []int:
		sort.Ints(k)
	case []uint16:
		sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	case []int32:
		sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	case []byte:
		sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	default:
		ss := make([]string, len(ks))
		for i := range ks {
			ss[i] = fmt.Sprintf("%#v", ks[i])
		}
		sort.Sort(&byStr[K]{ks, ss})
	}
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

// BeginKV, BeginK and BeginV start a map range with the given loop variables.
func BeginKV[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *It[K, V]) {
	it = begin[M, K, V](m)
	return
}

func BeginK[M ~map[K]V, K comparable, V any](m M) (k K, it *It[K, V]) {
	it = begin[M, K, V](m)
	return
}

func BeginV[M ~map[K]V, K comparable, V any](m M) (v V, it *It[K, V]) {
	it = begin[M, K, V](m)
	return
}

// Next stores the next live entry.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
