// Package maps stands in for the standard library's maps: iteration order is the simulator's.
package maps

import (
	"iter"
	realmaps "maps"

	"github.com/tdewolff/font/zzverif/simrt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return simrt.Map(m) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range simrt.Map(m) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range simrt.Map(m) {
			if !yield(v) {
				return
			}
		}
	}
}
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V])   { realmaps.Insert(m, seq) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V           { return realmaps.Collect(seq) }
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool          { return realmaps.Equal(m1, m2) }
func Clone[M ~map[K]V, K comparable, V any](m M) M                       { return realmaps.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2)     { realmaps.Copy(d, s) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, d func(K, V) bool) { realmaps.DeleteFunc(m, d) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return realmaps.EqualFunc(m1, m2, eq)
}
