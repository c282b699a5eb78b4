// Package vmaps stands in for package maps: orders come from the simulator.
package vmaps

import (
	"iter"
	"maps"

	"geosim/vsim"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range vsim.Order(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range vsim.Order(m) {
			if !yield(m[k]) {
				return
			}
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range vsim.Order(m) {
			if !yield(k, m[k]) {
				return
			}
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M            { return maps.Clone(m) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool { return maps.Equal(a, b) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	maps.Copy(dst, src)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	maps.DeleteFunc(m, del)
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(a, b, eq)
}
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	maps.Insert(m, seq)
}
