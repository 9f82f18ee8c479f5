// Package vals puts values of every kind into a key-value structure: values that cannot be compared, nil ones, equal
// ones that are not the same. What comes out must be the very thing that was put in.
package vals

import (
	"errors"
	"math"
	"reflect"

	"verif.local/v/comb"
	"verif.local/v/run"
)

// Store is the structure under test. Put may report the previous value; a nil Del is left out.
type Store[V any] struct {
	Put func(k string, v V) (prev V, had, reports bool)
	Get func(k string) (V, bool)
	Del func(k string)
}

// Same tells whether a is b: the same slice, function, map or pointer, or an equal plain value.
func Same(a, b any) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

func same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Pointer() == b.Pointer()
	case reflect.Func, reflect.Map, reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Interface:
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := range a.NumField() {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := range a.Len() {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return a.Equal(b)
}

// Check runs every sequence of n puts and removals of the values under two keys.
func Check[V any](t *run.T, kind string, mk func() Store[V], vs []V, n int) {
	keys := []string{"a", "b"}
	nops := len(keys)*len(vs) + len(keys)
	if mk().Del == nil {
		nops = len(keys) * len(vs)
	}
	comb.Sequences(t, n, nops, func(seq []int) {
		o := mk()
		ref := map[string]V{}
		for step, op := range seq {
			if op < len(keys)*len(vs) {
				k, v := keys[op%len(keys)], vs[op/len(keys)]
				old, had := ref[k]
				if p, b, ok := o.Put(k, v); ok && (b != had || !same(reflect.ValueOf(&p).Elem(), reflect.ValueOf(&old).Elem())) {
					t.Fail("%s values: step %d of %v: Put(%q) of value %d reported %v,%v as the previous value, want %v,%v", kind, step, seq, k, op/len(keys), p, b, old, had)
				}
				ref[k] = v
			} else {
				k := keys[op-len(keys)*len(vs)]
				o.Del(k)
				delete(ref, k)
			}
			for _, k := range keys {
				v, had := ref[k]
				g, b := o.Get(k)
				if b != had || !same(reflect.ValueOf(&g).Elem(), reflect.ValueOf(&v).Elem()) {
					t.Fail("%s values: step %d of %v: Get(%q) returned %v,%v, want %v,%v", kind, step, seq, k, g, b, v, had)
				}
			}
		}
	})
}

// Pair is a struct that cannot be compared.
type Pair struct {
	B []byte
	S string
}

type fail struct{ F func() }

func (f fail) Error() string { return "fail" }

// Maker builds the structure for each of the value types.
type Maker struct {
	Bytes  func() Store[[]byte]
	Func   func() Store[func()]
	Map    func() Store[map[string]int]
	Ptr    func() Store[*int]
	Struct func() Store[Pair]
	Any    func() Store[any]
	Err    func() Store[error]
	Float  func() Store[float64]
	Str    func() Store[string]
	Array  func() Store[[2]any]
	None   func() Store[struct{}]
}

// All checks the structure with all the value types.
func (m Maker) All(t *run.T, n int) {
	x := []byte("same")
	y := []byte("same")
	f, g := func() {}, func() { _ = x }
	p, q := new(int), new(int)
	mx, my := map[string]int{}, map[string]int{}
	Check(t, "[]byte", m.Bytes, [][]byte{x, y, nil, {}, x[:2]}, n)
	Check(t, "func", m.Func, []func(){f, g, nil}, n)
	Check(t, "map", m.Map, []map[string]int{mx, my, nil}, n)
	Check(t, "pointer", m.Ptr, []*int{p, q, nil}, n)
	Check(t, "struct", m.Struct, []Pair{{x, "s"}, {y, "s"}, {}}, n)
	Check(t, "any", m.Any, []any{x, f, mx, nil, 1, int64(1), (*int)(nil)}, min(n, 3))
	Check(t, "error", m.Err, []error{nil, fail{f}, errors.New("e")}, n)
	Check(t, "float64", m.Float, []float64{math.NaN(), 0, math.Copysign(0, -1)}, n)
	Check(t, "string", m.Str, []string{"", "same", "b"}, n)
	Check(t, "array", m.Array, [][2]any{{x, f}, {nil, 1}, {}}, n)
	Check(t, "empty struct", m.None, []struct{}{{}}, n)
}
