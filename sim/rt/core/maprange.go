//go:build go1.24

package core

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter iterates a map in a seeded order instead of the runtime's.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// RangeMap implements for k, v := range m.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var zk K
	var zv V
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	n := len(it.keys)
	if n > 1 {
		names := make([]any, n)
		for i, k := range it.keys {
			names[i] = k
		}
		idx := order(names)
		ks := make([]K, n)
		for i, j := range idx {
			ks[i] = it.keys[j]
		}
		it.keys = ks
	}
	return it, zk, zv
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// order sorts the keys canonically, then rotates them by a seeded amount.
func order(keys []any) []int {
	n := len(keys)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	less := func(a, b any) bool {
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		switch va.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return va.Uint() < vb.Uint()
		case reflect.String:
			return va.String() < vb.String()
		}
		return fmt.Sprint(a) < fmt.Sprint(b)
	}
	sort.SliceStable(idx, func(i, j int) bool { return less(keys[idx[i]], keys[idx[j]]) })
	if !Dying() {
		c := ch
		r := int(c.decide(SS, uint32(n), func() uint32 { return uint32(splitmix(&c.rng[SS]) % uint64(n)) }))
		if r > 0 {
			idx = append(append([]int{}, idx[r:]...), idx[:r]...)
		}
	}
	return idx
}

// SaveVar registers a package-level variable so that ResetGlobals restores
// the value it has now.
func SaveVar(p any) {
	v := reflect.ValueOf(p).Elem()
	restore := saver(v)
	if restore != nil {
		RegisterReset(restore)
	}
}

func saver(v reflect.Value) func() {
	if !v.CanSet() {
		return nil
	}
	old := reflect.New(v.Type()).Elem()
	old.Set(v)
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return func() { v.Set(old) }
		}
		var ks, vs []reflect.Value
		it := v.MapRange()
		for it.Next() {
			ks = append(ks, it.Key())
			vs = append(vs, it.Value())
		}
		n := len(ks)
		return func() {
			v.Set(old)
			if v.Len() == n {
				same := true
				for i := range ks {
					if !v.MapIndex(ks[i]).IsValid() {
						same = false
						break
					}
				}
				if same && n > 0 {
					return
				}
				if n == 0 {
					return
				}
			}
			v.Clear()
			for i := range ks {
				v.SetMapIndex(ks[i], vs[i])
			}
		}
	case reflect.Slice:
		cp := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(cp, v)
		return func() {
			v.Set(old)
			reflect.Copy(v, cp)
		}
	case reflect.Ptr:
		if v.IsNil() || v.Elem().Kind() != reflect.Struct {
			return func() { v.Set(old) }
		}
		e := reflect.New(v.Type().Elem()).Elem()
		e.Set(v.Elem())
		return func() {
			v.Set(old)
			v.Elem().Set(e)
		}
	}
	return func() { v.Set(old) }
}
