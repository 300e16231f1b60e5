package main

// Representation of Go values during symbolic execution. The heap, pointers, lengths, types and
// functions are concrete on each path; booleans, integers, floating point bit patterns and the
// bytes of strings may be symbolic terms.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool                 concrete boolean
//	I                    concrete integer, zero extended from its width
//	float64              concrete float32 or float64
//	complex128           concrete complex
//	string               concrete string
//	*SStr                string with at least one symbolic byte
//	*Expr                symbolic boolean, integer or floating point bit pattern
//	*Value, *SymPtr      pointers
//	Struct, Array        aggregates
//	[]Value              slices
//	*Map, *Chan          maps and channels
//	Iface                interfaces
//	*Closure             functions
//	Tuple                multiple results
//	*strIter, *mapIter   iterators
type Value interface{}

type I uint64

type SStr struct{ b []Value }

type SymPtr struct {
	elems []Value
	idx   *Expr
	w     uint8 // zero when elements are not integers
	bool_ bool
}

type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn      *ssa.Function
	env     []Value
	builtin *ssa.Builtin
	native  func(fr *frame, args []Value) Value
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

type mapEnt struct {
	k, v    Value
	deleted bool
}

type Map struct {
	kt   types.Type
	ents []*mapEnt
	idx  map[string]*mapEnt
	nsym int // entries whose key has no canonical form
	live int
	pers bool
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return
}

func isFloat(t types.Type) (w uint8, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// zero returns the zero value of a type.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return (*Value)(nil)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return I(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(fmt.Sprintf("zero: unexpected type %v", t))
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

// canonKey returns a canonical text for fully concrete map keys.
func canonKey(v Value) (string, bool) {
	switch x := v.(type) {
	case bool:
		if x {
			return "b1", true
		}
		return "b0", true
	case I:
		return fmt.Sprintf("i%d", uint64(x)), true
	case string:
		return "s" + x, true
	case float64:
		if x == 0 {
			x = 0
		}
		return fmt.Sprintf("f%x", math.Float64bits(x)), true
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case *Map:
		return fmt.Sprintf("m%p", x), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := canonKey(x.v)
		if !ok {
			return "", false
		}
		return "I" + types.TypeString(x.t, nil) + ":" + k, true
	case Struct:
		return canonAgg([]Value(x))
	case Array:
		return canonAgg([]Value(x))
	}
	return "", false
}

func canonAgg(vs []Value) (string, bool) {
	var sb strings.Builder
	for _, e := range vs {
		k, ok := canonKey(e)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&sb, "%d:%s;", len(k), k)
	}
	return sb.String(), true
}

// strBytes returns the bytes of a string value.
func strBytes(v Value) []Value {
	switch x := v.(type) {
	case string:
		out := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			out[i] = I(x[i])
		}
		return out
	case *SStr:
		return x.b
	}
	panic(fmt.Sprintf("strBytes: %T", v))
}

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SStr:
		return len(x.b)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

// mkStr normalises bytes to a string value.
func mkStr(b []Value) Value {
	for _, e := range b {
		if _, ok := e.(I); !ok {
			return &SStr{append([]Value(nil), b...)}
		}
	}
	bs := make([]byte, len(b))
	for i, e := range b {
		bs[i] = byte(e.(I))
	}
	return string(bs)
}

func strConcat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	xb, yb := strBytes(x), strBytes(y)
	n := make([]Value, 0, len(xb)+len(yb))
	n = append(n, xb...)
	n = append(n, yb...)
	return &SStr{n}
}

func strSlice(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SStr:
		return mkStr(x.b[lo:hi])
	}
	panic("strSlice")
}

// show renders a value for diagnostics under a model.
func show(v Value, m *Model, depth int) string {
	if depth > 4 {
		return "..."
	}
	ev := func(e *Expr) uint64 {
		if m == nil {
			return 0
		}
		return e.Eval(m)
	}
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case bool, float64, complex128:
		return fmt.Sprint(x)
	case I:
		return fmt.Sprintf("%d", uint64(x))
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		bs := make([]byte, len(x.b))
		for i, e := range x.b {
			switch y := e.(type) {
			case I:
				bs[i] = byte(y)
			case *Expr:
				bs[i] = byte(ev(y))
			}
		}
		return fmt.Sprintf("%q", string(bs))
	case *Expr:
		if x.w == 0 {
			return fmt.Sprint(ev(x) != 0)
		}
		return fmt.Sprintf("%d", ev(x))
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + show(*x, m, depth+1)
	case Struct:
		return "{" + showAll([]Value(x), m, depth) + "}"
	case Array:
		return "[" + showAll([]Value(x), m, depth) + "]"
	case Tuple:
		return "(" + showAll([]Value(x), m, depth) + ")"
	case []Value:
		return "[" + showAll(x, m, depth) + "]"
	case *Map:
		if x == nil {
			return "map(nil)"
		}
		var parts []string
		for _, e := range x.ents {
			if !e.deleted {
				parts = append(parts, show(e.k, m, depth+1)+":"+show(e.v, m, depth+1))
			}
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return show(x.v, m, depth+1)
	case *Closure:
		if x == nil {
			return "nil"
		}
		return "func"
	}
	return fmt.Sprintf("%T", v)
}

func showAll(vs []Value, m *Model, depth int) string {
	parts := make([]string, len(vs))
	for i, v := range vs {
		parts[i] = show(v, m, depth+1)
	}
	return strings.Join(parts, " ")
}
