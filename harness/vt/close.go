// Package vt is the shared runtime of the checks: it records what a run
// covered, wraps rapid, and gives access to internals in a way that does not
// depend on how unexported fields are named.
package vt

import (
	"reflect"
	"unsafe"

	"github.com/dgraph-io/badger/v3"
)

// findAll walks v (through unexported fields too) and collects every value of
// type T it can reach.
func walk(v reflect.Value, depth int, seen map[uintptr]bool, stop reflect.Type, visit func(reflect.Value)) {
	if depth < 0 || !v.IsValid() {
		return
	}
	if v.Type() == stop {
		visit(v)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		walk(v.Elem(), depth-1, seen, stop, visit)
	case reflect.Interface:
		if !v.IsNil() {
			walk(v.Elem(), depth-1, seen, stop, visit)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			walk(f, depth-1, seen, stop, visit)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len() && i < 64; i++ {
			walk(v.Index(i), depth-1, seen, stop, visit)
		}
	}
}

// FindDBs returns every *badger.DB reachable from x, in field order.
func FindDBs(x interface{}) []*badger.DB {
	var out []*badger.DB
	have := map[*badger.DB]bool{}
	cp := reflect.New(reflect.TypeOf(x))
	cp.Elem().Set(reflect.ValueOf(x))
	walk(cp.Elem(), 30, map[uintptr]bool{}, reflect.TypeOf((*badger.DB)(nil)), func(v reflect.Value) {
		if v.IsNil() {
			return
		}
		db := (*badger.DB)(unsafe.Pointer(v.Pointer()))
		if !have[db] {
			have[db] = true
			out = append(out, db)
		}
	})
	return out
}

// CloseAll closes every badger database reachable from x, so that a run that
// builds thousands of stores does not run out of memory.
func CloseAll(x interface{}) {
	for _, db := range FindDBs(x) {
		_ = db.Close()
	}
}

// Find returns every value of type T, a pointer, which is reachable from x.
func Find[T any](x interface{}) []*T {
	var out []*T
	have := map[*T]bool{}
	cp := reflect.New(reflect.TypeOf(x))
	cp.Elem().Set(reflect.ValueOf(x))
	walk(cp.Elem(), 30, map[uintptr]bool{}, reflect.TypeOf((*T)(nil)), func(v reflect.Value) {
		if v.IsNil() {
			return
		}
		if p := (*T)(unsafe.Pointer(v.Pointer())); !have[p] {
			have[p] = true
			out = append(out, p)
		}
	})
	return out
}
