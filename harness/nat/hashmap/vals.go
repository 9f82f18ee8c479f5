package main

import (
	hm "github.com/donnie4w/gofer/hashmap"
	"verif.local/v/lib/vals"
	"verif.local/v/run"
)

func putter[V any](f func(string, V) (V, bool)) func(string, V) (V, bool, bool) {
	return func(k string, v V) (V, bool, bool) {
		p, b := f(k, v)
		return p, b, true
	}
}

func vMap[V any]() vals.Store[V] {
	m := hm.NewMap[string, V]()
	return vals.Store[V]{Put: putter(m.Put), Get: m.Get, Del: func(k string) { m.Del(k) }}
}

func vMapL[V any]() vals.Store[V] {
	m := hm.NewMapL[string, V]()
	return vals.Store[V]{Put: putter(m.Put), Get: m.Get, Del: func(k string) { m.Del(k) }}
}

func vLimit[V any]() vals.Store[V] {
	m := hm.NewLimitMap[string, V](3)
	return vals.Store[V]{Put: putter(m.Put), Get: m.Get, Del: m.Del}
}

func vSegments[V any]() vals.Store[V] {
	m := hm.NewLimitHashMapWithSegment[string, V](8, 1)
	return vals.Store[V]{Put: putter(m.Put), Get: m.Get, Del: m.Del}
}

func vLinked[V any]() vals.Store[V] {
	m := hm.NewLinkedHashMap[string, V](3)
	return vals.Store[V]{Put: func(k string, v V) (p V, b, r bool) { m.Put(k, v); return }, Get: m.Get, Del: m.Delete}
}

// vStored puts with LoadOrStore: a present key keeps its value, so it is deleted first.
func vStored[V any]() vals.Store[V] {
	m := hm.NewLinkedHashMap[string, V](3)
	return vals.Store[V]{Put: func(k string, v V) (p V, b, r bool) {
		was, had := m.Get(k)
		p, b = m.LoadOrStore(k, v)
		if !had {
			was = v
		}
		if b != had || !vals.Same(p, was) {
			panic("LoadOrStore returned another value")
		}
		m.Delete(k)
		m.Put(k, v)
		return
	}, Get: m.Get, Del: m.Delete}
}

func vTree[V any]() vals.Store[V] {
	m := hm.NewTreeMap[string, V](2)
	return vals.Store[V]{Put: putter(m.Put), Get: m.Get, Del: m.Del}
}

func valueKinds(thorough bool, name string, m vals.Maker) run.Scenario {
	return run.Scenario{Name: "nat/" + name + "/value-kinds", Nat: func(t *run.T) { m.All(t, depth(thorough, 3, 4)) }}
}

func kMap() vals.Maker {
	return vals.Maker{Bytes: vMap[[]byte], Func: vMap[func()], Map: vMap[map[string]int], Ptr: vMap[*int], Struct: vMap[vals.Pair], Any: vMap[any], Err: vMap[error],
		Float: vMap[float64], Str: vMap[string], Array: vMap[[2]any], None: vMap[struct{}]}
}

func kMapL() vals.Maker {
	return vals.Maker{Bytes: vMapL[[]byte], Func: vMapL[func()], Map: vMapL[map[string]int], Ptr: vMapL[*int], Struct: vMapL[vals.Pair], Any: vMapL[any], Err: vMapL[error],
		Float: vMapL[float64], Str: vMapL[string], Array: vMapL[[2]any], None: vMapL[struct{}]}
}

func kLimit() vals.Maker {
	return vals.Maker{Bytes: vLimit[[]byte], Func: vLimit[func()], Map: vLimit[map[string]int], Ptr: vLimit[*int], Struct: vLimit[vals.Pair], Any: vLimit[any], Err: vLimit[error],
		Float: vLimit[float64], Str: vLimit[string], Array: vLimit[[2]any], None: vLimit[struct{}]}
}

func kSegments() vals.Maker {
	return vals.Maker{Bytes: vSegments[[]byte], Func: vSegments[func()], Map: vSegments[map[string]int], Ptr: vSegments[*int], Struct: vSegments[vals.Pair], Any: vSegments[any], Err: vSegments[error],
		Float: vSegments[float64], Str: vSegments[string], Array: vSegments[[2]any], None: vSegments[struct{}]}
}

func kLinked() vals.Maker {
	return vals.Maker{Bytes: vLinked[[]byte], Func: vLinked[func()], Map: vLinked[map[string]int], Ptr: vLinked[*int], Struct: vLinked[vals.Pair], Any: vLinked[any], Err: vLinked[error],
		Float: vLinked[float64], Str: vLinked[string], Array: vLinked[[2]any], None: vLinked[struct{}]}
}

func kStored() vals.Maker {
	return vals.Maker{Bytes: vStored[[]byte], Func: vStored[func()], Map: vStored[map[string]int], Ptr: vStored[*int], Struct: vStored[vals.Pair], Any: vStored[any], Err: vStored[error],
		Float: vStored[float64], Str: vStored[string], Array: vStored[[2]any], None: vStored[struct{}]}
}

func kTree() vals.Maker {
	return vals.Maker{Bytes: vTree[[]byte], Func: vTree[func()], Map: vTree[map[string]int], Ptr: vTree[*int], Struct: vTree[vals.Pair], Any: vTree[any], Err: vTree[error],
		Float: vTree[float64], Str: vTree[string], Array: vTree[[2]any], None: vTree[struct{}]}
}
