//go:build go1.24

package zzrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Iter iterates over a map in an order drawn from the environment.
type Iter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
}

// MapIter starts a range over a map; the extra results give the variables their types.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*Iter[M, K, V], K, V) {
	var k K
	var v V
	it := &Iter[M, K, V]{m: m}
	for x := range m {
		it.keys = append(it.keys, x)
	}
	SortKeys(it.keys)
	if s := Cur; s != nil && s.cur != nil {
		for i := len(it.keys) - 1; i > 0; i-- {
			j := s.env.intn(i + 1)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it, k, v
}

// Next advances.
func (it *Iter[M, K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		y, ok := it.m[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}

// SortKeys orders keys deterministically.
func SortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
		return
	case []int:
		sort.Ints(x)
		return
	}
	switch reflect.TypeOf(&ks[0]).Elem().Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
		sort.SliceStable(ks, func(i, j int) bool { return keySeq(any(ks[i])) < keySeq(any(ks[j])) })
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
}

// Pointer-like keys: ordered by first insertion (NoteKey, or the identity the
// pointed-to object was given by NoteObj).
var keySeqTab = map[any]int{}

// NoteKey remembers the order in which pointer-like map keys first appear.
func NoteKey[K any](k K) K {
	if Cur == nil {
		return k
	}
	if _, ok := keySeqTab[any(k)]; !ok {
		keySeqTab[any(k)] = len(keySeqTab)
	}
	return k
}
func keySeq(k any) int { return keySeqTab[k] }

// ResetKeys forgets pointer key order between runs.
func ResetKeys() { clear(keySeqTab) }
