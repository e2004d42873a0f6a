package main

// Canonical form of a whole object graph, read through reflection (so it does not depend on the
// names of unexported fields): scalar contents, pointer sharing (numbered in visit order), slice
// lengths, and which slices share backing memory (offset and capacities). The capacity of a slice
// that shares its backing array with no other slice is left out: an append to it, in place or
// after reallocation, leads to states with the same canonical form. So two values with the same
// canonical form have the same futures.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
)

type canonW struct {
	b      []byte
	ptrs   map[uintptr]int
	slices []sliceRec
	exact  bool // include spare-capacity contents (used for before/after comparisons)
	cap    bool // include capacities and overlaps
}

type sliceRec struct {
	lo, hi uintptr
	id     int
}

func (w *canonW) s(x string) { w.b = append(w.b, x...) }

// Canon returns the canonical form including slice overlap.
func Canon(v interface{}) string { return canon(v, true, false) }

// Snapshot returns the contents including the spare capacity of every slice, without
// addresses; used to detect writes to an argument.
func Snapshot(v interface{}) string { return canon(v, true, true) }

func canon(v interface{}, capf, exact bool) string {
	w := &canonW{ptrs: map[uintptr]int{}, cap: capf, exact: exact}
	w.walk(reflect.ValueOf(v), 0)
	if capf {
		// overlaps between distinct slices
		sl := w.slices
		sort.SliceStable(sl, func(i, j int) bool { return sl[i].lo < sl[j].lo })
		var ov []string
		for i := range sl {
			for j := i + 1; j < len(sl) && sl[j].lo < sl[i].hi; j++ {
				ov = append(ov, fmt.Sprintf("|%d~%d+%d/%d/%d", sl[i].id, sl[j].id, sl[j].lo-sl[i].lo, sl[i].hi-sl[i].lo, sl[j].hi-sl[j].lo))
			}
		}
		sort.Strings(ov)
		for _, o := range ov {
			w.s(o)
		}
	}
	return string(w.b)
}

func (w *canonW) walk(v reflect.Value, depth int) {
	if depth > 200 {
		w.s("<deep>")
		return
	}
	if !v.IsValid() {
		w.s("<nil>")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.s("t")
		} else {
			w.s("f")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.b = strconv.AppendInt(w.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.b = strconv.AppendUint(w.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		w.b = strconv.AppendUint(w.b, math.Float64bits(v.Float()), 36)
	case reflect.String:
		w.b = strconv.AppendQuote(w.b, v.String())
	case reflect.Func:
		if v.IsNil() {
			w.s("func0")
		} else {
			w.s("func1")
		}
	case reflect.Interface:
		if v.IsNil() {
			w.s("nil")
		} else {
			w.s(v.Elem().Type().String())
			w.walk(v.Elem(), depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() {
			w.s("nil")
			return
		}
		p := v.Pointer()
		if id, ok := w.ptrs[p]; ok {
			w.s("#")
			w.b = strconv.AppendInt(w.b, int64(id), 10)
			return
		}
		w.ptrs[p] = len(w.ptrs)
		w.s("&")
		w.walk(v.Elem(), depth+1)
	case reflect.Struct:
		w.s("{")
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), depth+1)
			w.s(",")
		}
		w.s("}")
	case reflect.Array:
		w.s("[")
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
			w.s(",")
		}
		w.s("]")
	case reflect.Slice:
		if v.IsNil() {
			w.s("nil[]")
			return
		}
		w.s("[")
		w.b = strconv.AppendInt(w.b, int64(v.Len()), 10)
		if w.cap {
			if v.Cap() > 0 {
				sz := v.Type().Elem().Size()
				w.slices = append(w.slices, sliceRec{v.Pointer(), v.Pointer() + sz*uintptr(v.Cap()), len(w.slices)})
			}
		}
		w.s(":")
		n := v.Len()
		if w.exact {
			n = v.Cap()
			v = v.Slice(0, n)
		}
		for i := 0; i < n; i++ {
			w.walk(v.Index(i), depth+1)
			w.s(",")
		}
		w.s("]")
	case reflect.Map:
		if v.IsNil() {
			w.s("nilmap")
			return
		}
		var es []string
		it := v.MapRange()
		for it.Next() {
			k := canonSub(it.Key()) + "=" + canonSub(it.Value())
			es = append(es, k)
		}
		sort.Strings(es)
		w.s("map[")
		for _, e := range es {
			w.s(e)
			w.s(",")
		}
		w.s("]")
	default:
		w.s("<")
		w.s(v.Kind().String())
		w.s(">")
	}
}

func canonSub(v reflect.Value) string {
	w := &canonW{ptrs: map[uintptr]int{}}
	w.walk(v, 0)
	return string(w.b)
}
