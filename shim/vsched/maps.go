package vsched

import (
	"fmt"
	"reflect"
	"sort"
)

// Map accesses are windows, so that overlapping a write with any other access is seen as the
// fatal error "concurrent map ..." the Go runtime would raise.
type mapst struct{ w, r int }

var mapWin = map[uintptr]*mapst{}

func init() { OnReset(func() { mapWin = map[uintptr]*mapst{} }) }

func mapBegin(m interface{}, write bool, site int) *mapst {
	if !active || killing || !siteOn[site] {
		return nil
	}
	v := reflect.ValueOf(m)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	st := mapWin[p]
	if st == nil {
		st = &mapst{}
		mapWin[p] = st
	}
	if st.w > 0 {
		finish(Fatal, "concurrent map access at "+siteNames[site]+" "+stackHere())
	}
	if write && st.r > 0 {
		finish(Fatal, "concurrent map read and map write at "+siteNames[site]+" "+stackHere())
	}
	if write {
		st.w++
	} else {
		st.r++
	}
	point(site, "")
	return st
}

func mapEnd(st *mapst, write bool) {
	if st == nil {
		return
	}
	if write {
		st.w--
	} else {
		st.r--
	}
}

// MapSet is m[k] = v.
func MapSet[M ~map[K]V, K comparable, V any](site int, m M, k K, v V) {
	st := mapBegin(m, true, site)
	m[k] = v
	mapEnd(st, true)
}

// MapGet is m[k].
func MapGet[M ~map[K]V, K comparable, V any](site int, m M, k K) V {
	st := mapBegin(m, false, site)
	v := m[k]
	mapEnd(st, false)
	return v
}

// MapGet2 is v, ok := m[k].
func MapGet2[M ~map[K]V, K comparable, V any](site int, m M, k K) (V, bool) {
	st := mapBegin(m, false, site)
	v, ok := m[k]
	mapEnd(st, false)
	return v, ok
}

// MapDelete is delete(m, k).
func MapDelete[M ~map[K]V, K comparable, V any](site int, m M, k K) {
	st := mapBegin(m, true, site)
	delete(m, k)
	mapEnd(st, true)
}

// MapKeys gives the iteration order of a range over m: sorted, or (one deviation) reversed.
func MapKeys[M ~map[K]V, K comparable, V any](site int, m M) []K {
	st := mapBegin(m, false, site)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	mapEnd(st, false)
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	if active && !killing && cfg.MapOrder && len(ks) > 1 && choose(2, 1) == 1 {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

func less(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	case int64:
		if y, ok := b.(int64); ok {
			return x < y
		}
	case int32:
		if y, ok := b.(int32); ok {
			return x < y
		}
	}
	return fmt.Sprintf("%T%v", a, a) < fmt.Sprintf("%T%v", b, b)
}

// The F forms take the map first, so that keys and values convert as in ordinary Go.
func MapGetF[M ~map[K]V, K comparable, V any](site int, m M) func(K) V {
	return func(k K) V { return MapGet(site, m, k) }
}

func MapGet2F[M ~map[K]V, K comparable, V any](site int, m M) func(K) (V, bool) {
	return func(k K) (V, bool) { return MapGet2(site, m, k) }
}

func MapSetF[M ~map[K]V, K comparable, V any](site int, m M) func(K, V) {
	return func(k K, v V) { MapSet(site, m, k, v) }
}

func MapDeleteF[M ~map[K]V, K comparable, V any](site int, m M) func(K) {
	return func(k K) { MapDelete(site, m, k) }
}

// ZeroVar clears a package variable.
func ZeroVar[T any](p *T) {
	var z T
	*p = z
}
