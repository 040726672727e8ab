package vrt

import (
	"fmt"
	"iter"
	"sort"
)

// MapPerm bounds the maps whose every iteration order is explored; larger maps
// are visited in every rotation of the sorted order and its reverse.
var MapPerm = 5

// MapRange ranges over m in an order chosen by the explorer.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		type kv struct {
			k K
			s string
		}
		ks := make([]kv, 0, len(m))
		for k := range m {
			ks = append(ks, kv{k, fmt.Sprint(k)})
		}
		sort.SliceStable(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
		if len(ks) > MapPerm {
			n := len(ks)
			c := Choose(2*n, "map rotation")
			out := make([]kv, n)
			for i := range out {
				out[i] = ks[(i+c)%n]
			}
			if c >= n {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					out[i], out[j] = out[j], out[i]
				}
			}
			for _, k := range out {
				if v, ok := m[k.k]; ok && !yield(k.k, v) {
					return
				}
			}
			return
		}
		for len(ks) > 0 {
			i := Choose(len(ks), "map order")
			k := ks[i]
			ks = append(ks[:i:i], ks[i+1:]...)
			if v, ok := m[k.k]; ok && !yield(k.k, v) {
				return
			}
		}
	}
}
