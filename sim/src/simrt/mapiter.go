package simrt

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
)

// MapSeed decides the iteration order of every map of the program,
// from the first package initialiser on.
var (
	mapSeed   uint64
	mapCount  uint64
	MapRanges int
)

func init() {
	if s, err := strconv.ParseUint(os.Getenv("VERIF_MAPSEED"), 10, 64); err == nil {
		mapSeed = s
	}
}

// Iter iterates over a snapshot of a map's keys in a seeded order.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func newIter[K comparable, V any](m map[K]V) *Iter[K, V] {
	it := &Iter[K, V]{m: m, keys: make([]K, 0, len(m))}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) < 2 {
		return it
	}
	MapRanges++
	ks := it.keys
	switch reflect.TypeOf(ks[0]).Kind() {
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	default:
		ss := make(map[K]string, len(ks))
		for _, k := range ks {
			ss[k] = fmt.Sprint(k)
		}
		sort.Slice(ks, func(i, j int) bool { return ss[ks[i]] < ss[ks[j]] })
	}
	switch mapSeed {
	case 0: // ascending
	case 1: // descending
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	default:
		mapCount++
		r := Rand{mapSeed*0x9e3779b97f4a7c15 + mapCount}
		for i := len(ks) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return it
}

func (it *Iter[K, V]) step() (k K, v V, ok bool) {
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		if v, ok = it.m[k]; ok {
			return k, v, true
		}
	}
	return k, v, false
}

func (it *Iter[K, V]) KV(k *K, v *V) bool {
	kk, vv, ok := it.step()
	if ok {
		*k, *v = kk, vv
	}
	return ok
}
func (it *Iter[K, V]) K(k *K) bool {
	kk, _, ok := it.step()
	if ok {
		*k = kk
	}
	return ok
}
func (it *Iter[K, V]) V(v *V) bool {
	_, vv, ok := it.step()
	if ok {
		*v = vv
	}
	return ok
}

// MI0..MI3 start an iteration that assigns to existing variables, declares
// the key, the value, or both.
func MI0[K comparable, V any](m map[K]V) *Iter[K, V] { return newIter(m) }
func MIK[K comparable, V any](m map[K]V) (*Iter[K, V], K) {
	var k K
	return newIter(m), k
}
func MIV[K comparable, V any](m map[K]V) (*Iter[K, V], V) {
	var v V
	return newIter(m), v
}
func MIKV[K comparable, V any](m map[K]V) (*Iter[K, V], K, V) {
	var k K
	var v V
	return newIter(m), k, v
}
