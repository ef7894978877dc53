package main

import (
	"reflect"
	"strings"
	"unsafe"

	"vmc.local/rt"
)

// varState is a copy of the package-level variables of the code under test,
// taken before anything was called, so that executions can start from the
// state of a process that never used the library.
type varState struct {
	undo []func()
}

var initialVars *varState

// resetVars puts the package-level variables back to their initial values. The
// first call takes the copy.
func resetVars() {
	if initialVars == nil {
		initialVars = &varState{}
		seen := map[unsafe.Pointer]bool{}
		for _, v := range rt.Vars() {
			if strings.Contains(v.Pkg, "tools/server") {
				continue
			}
			initialVars.save(reflect.ValueOf(v.Ptr).Elem(), 0, seen)
		}
		return
	}
	for _, f := range initialVars.undo {
		f()
	}
}

const saveMax = 300

func (s *varState) save(v reflect.Value, depth int, seen map[unsafe.Pointer]bool) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	t := v.Type()
	old := reflect.New(t).Elem()
	old.Set(v)
	switch t.Kind() {
	case reflect.Map:
		if v.IsNil() || v.Len() > saveMax {
			s.undo = append(s.undo, func() { v.Set(old) })
			return
		}
		type kv struct{ k, v reflect.Value }
		var kvs []kv
		for it := old.MapRange(); it.Next(); {
			kvs = append(kvs, kv{it.Key(), it.Value()})
		}
		s.undo = append(s.undo, func() {
			m := reflect.MakeMapWithSize(t, len(kvs))
			for _, e := range kvs {
				m.SetMapIndex(e.k, e.v)
			}
			v.Set(m)
		})
	case reflect.Slice:
		if v.IsNil() || v.Len() > saveMax {
			s.undo = append(s.undo, func() { v.Set(old) })
			return
		}
		cp := reflect.MakeSlice(t, v.Len(), v.Len())
		reflect.Copy(cp, v)
		s.undo = append(s.undo, func() {
			n := reflect.MakeSlice(t, cp.Len(), cp.Len())
			reflect.Copy(n, cp)
			v.Set(n)
		})
	case reflect.Ptr:
		s.undo = append(s.undo, func() { v.Set(old) })
		if v.IsNil() || depth > 3 || seen[v.UnsafePointer()] || t.Elem().Kind() != reflect.Struct {
			return
		}
		if p := t.Elem().PkgPath(); !strings.Contains(p, "gse") && !strings.Contains(p, "vmc") {
			return
		}
		seen[v.UnsafePointer()] = true
		s.save(v.Elem(), depth+1, seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.save(v.Field(i), depth, seen)
		}
	case reflect.Interface, reflect.Func, reflect.Chan:
		s.undo = append(s.undo, func() { v.Set(old) })
	default:
		s.undo = append(s.undo, func() { v.Set(old) })
	}
}
