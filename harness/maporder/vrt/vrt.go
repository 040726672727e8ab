// Package vrt replaces the iteration over maps of the generator under test: every range asks Plan for its order.
package vrt

import (
	"fmt"
	"iter"
	"sort"
	"sync"
)

// Plan gives the order of the n-th iteration over a map of these (sorted) keys; nil means sorted.
var Plan func(n int, keys []string) []int

// Ranges counts the iterations so far.
var Ranges int

var mu sync.Mutex

func order[M ~map[K]V, K comparable, V any](m M) []K {
	type kv struct {
		k K
		s string
	}
	ks := make([]kv, 0, len(m))
	for k := range m {
		ks = append(ks, kv{k, fmt.Sprint(k)})
	}
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
	var perm []int
	if len(ks) > 1 {
		mu.Lock()
		names := make([]string, len(ks))
		for i, k := range ks {
			names[i] = k.s
		}
		if Plan != nil {
			perm = Plan(Ranges, names)
		}
		Ranges++
		mu.Unlock()
	}
	out := make([]K, len(ks))
	for i := range ks {
		out[i] = ks[i].k
		if perm != nil {
			out[i] = ks[perm[i]].k
		}
	}
	return out
}

// MapRange ranges over m.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range order(m) {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys ranges over the keys of m.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapRange(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapValues ranges over the values of m.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapRange(m) {
			if !yield(v) {
				return
			}
		}
	}
}
