package sim

import (
	"fmt"
	"reflect"
	"sort"
)

// MapEnt is one element of a map under iteration
type MapEnt[M ~map[K]V, K comparable, V any] struct {
	m M
	K K
}

func (e MapEnt[M, K, V]) V() V { return e.m[e.K] }

// OK tells whether the key is still there
func (e MapEnt[M, K, V]) OK() bool { _, ok := e.m[e.K]; return ok }

// MapIter returns the elements of m in an order that depends on the seed and the keys only
func MapIter[M ~map[K]V, K comparable, V any](m M) []MapEnt[M, K, V] {
	if len(m) == 0 {
		return nil
	}
	res := make([]MapEnt[M, K, V], 0, len(m))
	for k := range m {
		res = append(res, MapEnt[M, K, V]{m, k})
	}
	if S == nil || len(res) == 1 {
		return res
	}
	sort.Slice(res, func(i, j int) bool { return lessAny(res[i].K, res[j].K) })
	p := S.misc.Perm(len(res))
	out := make([]MapEnt[M, K, V], len(res))
	for i, j := range p {
		out[i] = res[j]
	}
	return out
}

func lessAny(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return va.Uint() < vb.Uint()
	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return false // no deterministic order of addresses
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
