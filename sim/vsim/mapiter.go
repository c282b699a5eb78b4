package vsim

import (
	"fmt"
	"os"
	"sort"
	"strconv"
)

// Hash-table iteration order. Seed 0 is the canonical (sorted) order; any other
// seed gives, per walk, an order derived from the seed and the number of walks so far.
var (
	mapSeed  uint64
	mapWalks uint64
	mapTotal int64
)

func init() {
	// Process start is part of the simulation: tables that the code under test
	// builds by walking a map in its init functions see this seed.
	if v := os.Getenv("VSIM_INIT_MAP"); v != "" {
		mapSeed, _ = strconv.ParseUint(v, 10, 64)
	}
}

// SetMapSeed starts a new epoch of hash-table iteration orders.
//
//go:norace
func SetMapSeed(s uint64) { mapSeed, mapWalks = s, 0 }

// MapWalks counts the walks over maps of two or more entries in non-canonical order.
//
//go:norace
func MapWalks() int64 { return mapTotal }

//go:norace
func nextWalk(n int) uint64 {
	if mapSeed == 0 {
		return 0
	}
	mapWalks++
	if n > 1 {
		mapTotal++
	}
	return Mix(mapSeed, mapWalks) | 1
}

// Order returns the keys of m in the order the simulator has chosen.
func Order[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	names := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		names[i] = fmt.Sprintf("%T:%#v", k, k)
		if s, ok := any(k).(string); ok {
			names[i] = s
		}
		if n, ok := toInt(any(k)); ok {
			names[i] = fmt.Sprintf("%020d", n+1<<60)
		}
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	if seed := nextWalk(len(keys)); seed != 0 {
		var r Rand
		r.Seed(seed)
		for i := len(idx) - 1; i > 0; i-- {
			j := int(r.N(uint64(i + 1)))
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	return out
}

func toInt(v any) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case rune:
		return int64(x), true
	case uint8:
		return int64(x), true
	case int64:
		return x, true
	}
	s := fmt.Sprintf("%d", v)
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// Iter replaces a range over a map.
type Iter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
}

// MapIter starts a walk over m; the zero key and value only carry the types.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*Iter[M, K, V], K, V) {
	var k K
	var v V
	return &Iter[M, K, V]{m: m, keys: Order(m)}, k, v
}

// Next advances to the next entry that is still there.
func (it *Iter[M, K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		if val, ok := it.m[key]; ok {
			*k, *v = key, val
			return true
		}
	}
	return false
}
