// Package vf is the specification vocabulary. The verifier gives every function
// here a logical meaning; the bodies below give the same meaning when a
// contract is executed against the running code.
package vf

import (
	"bufio"
	"fmt"
	"reflect"
)

// Fails collects the labels of clauses found false at run time.
var Fails []string

// Ensure states a postcondition clause.
func Ensure(label string, c bool) {
	if !c {
		Fails = append(Fails, label)
	}
}

// EnsureF is Ensure with the clause evaluated late; a clause that cannot be
// evaluated does not hold.
func EnsureF(label string, c func() bool) {
	defer func() {
		if r := recover(); r != nil {
			Fails = append(Fails, label+" (not even defined: "+fmt.Sprint(r)+")")
		}
	}()
	if !c() {
		Fails = append(Fails, label)
	}
}

// Inv states a loop invariant clause.
func Inv(label string, c bool) {}

// Assert states an intermediate fact used by the proof.
func Assert(label string, c bool) {}

// Hint offers a fact that may help the proof: used when it can be proved.
func Hint(label string, c bool) {}

// Dec states a measure that decreases and is bounded below by zero.
func Dec(n int) {}

// All: f holds on [lo,hi).
func All(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Ex: f holds somewhere on [lo,hi).
func Ex(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// AllStr: f holds for every string (not executable: taken as true).
func AllStr(f func(s string) bool) bool { return true }

// AllU32: f holds for every uint32 (executed: for some).
func AllU32(f func(k uint32) bool) bool {
	for k := uint32(0); k < 16; k++ {
		if !f(k) || !f(-k-1) {
			return false
		}
	}
	return true
}

// Imp is implication.
func Imp(a, b bool) bool { return !a || b }

// Iff is equivalence.
func Iff(a, b bool) bool { return a == b }

// Modifies declares a location that may change.
func Modifies(p interface{}) {}

// ModElems declares that the elements of a slice may change.
func ModElems(s interface{}) {}

// ModWithin declares that the elements of a slice up to its length may change,
// and nothing else of the array it is part of.
func ModWithin(s interface{}) {}

// ModMap declares that a map may change.
func ModMap(m interface{}) {}

// Fresh: the object was allocated by the call.
func Fresh(v interface{}) bool { return true }

// New: the object was allocated since the outermost loop began.
func New(v interface{}) bool { return true }

// Stays: a is in the memory b is in, or was allocated by the call.
func Stays(a, b interface{}) bool { return true }

// SubOf: a is b[lo:lo+len(a)], sharing its memory when not empty.
func SubOf(a, b []byte, lo int) bool {
	if lo < 0 || lo+len(a) > len(b) {
		return false
	}
	return len(a) == 0 || &a[0] == &b[lo]
}

// Same: the same part of the same memory.
func Same(a, b []byte) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
}

// SameBytes: equal contents.
func SameBytes(a, b []byte) bool { return string(a) == string(b) }

// Separate: the two objects do not overlap.
func Separate(a, b interface{}) bool { return true }

// Concrete is true when the contract is being executed, false in proofs.
func Concrete() bool { return true }

// Record keeps a value met on the way for a postcondition to refer to.
func Record(label string, v interface{}) {}

// Recorded is the value recorded last: in proofs a witness for what the
// postcondition says about it; not available when contracts are executed.
func Recorded(label string, kind interface{}) interface{} { panic("vf.Recorded") }

// Pow2 is 2 to the n.
func Pow2(n int) int { return 1 << uint(n) }

// Snap copies a slice so that its present contents can be referred to later.
func Snap(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

var _ = bufio.NewReader

// SnapOf copies a slice or map of any type, element by element.
func SnapOf(s interface{}) interface{} {
	v := reflect.ValueOf(s)
	if v.IsNil() {
		return s
	}
	if v.Kind() == reflect.Map {
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, v.MapIndex(k))
		}
		return c.Interface()
	}
	c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(c, v)
	return c.Interface()
}

// Pat names a term by which a quantified formula is to be instantiated.
func Pat(n int) {}

// MapSame: the maps have the same keys and (identical) values.
func MapSame(a, b interface{}) bool { return mapSame(a, b, nil) }

// MapSameBut is MapSame except for what is under key k.
func MapSameBut(a, b, k interface{}) bool { return mapSame(a, b, k) }

func mapSame(a, b, but interface{}) bool {
	for i := 0; i < 2; i++ {
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		for _, k := range va.MapKeys() {
			if but != nil && k.Interface() == but {
				continue
			}
			w := vb.MapIndex(k)
			if !w.IsValid() || w.Interface() != va.MapIndex(k).Interface() {
				return false
			}
		}
		a, b = b, a
	}
	return true
}

// KeyStr is the i-th key of a map in the order a range statement meets them:
// known in proofs only.
func KeyStr(m interface{}, i int) string { panic("vf.KeyStr") }

// KeyIdx is the place of a key in that order: known in proofs only.
func KeyIdx(m interface{}, k string) int { panic("vf.KeyIdx") }

// For: the property is being decided, or the contract executed.
func For(property string) bool { return true }
