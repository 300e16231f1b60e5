package main

// Models of the small part of the reflection library that the code under analysis uses.

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/types/typeutil"
	"sync"
)

type rtypes struct {
	mu    sync.Mutex
	byTyp typeutil.Map
	byPtr map[*Value]types.Type
	ptr   types.Type
}

func (sh *Shared) rtypeOf(t types.Type) Value {
	r := &sh.rt
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.ptr == nil {
		r.ptr = types.NewPointer(sh.findType("reflect", "rtype"))
		r.byPtr = map[*Value]types.Type{}
	}
	p, _ := r.byTyp.At(t).(*Value)
	if p == nil {
		p = new(Value)
		*p = Struct{}
		r.byTyp.Set(t, p)
		r.byPtr[p] = t
	}
	return Iface{t: r.ptr, v: p}
}

func (sh *Shared) typeOfR(v Value) types.Type {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p, _ := v.(*Value)
	r := &sh.rt
	r.mu.Lock()
	defer r.mu.Unlock()
	t := r.byPtr[p]
	if t == nil {
		panic(pathEnd{"unsupported", "unknown reflected type"})
	}
	return t
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func reflectNatives(m map[string]nativeFn) {
	m["reflect.TypeOf"] = func(fr *frame, args []Value) Value {
		i := args[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return fr.w.sh.rtypeOf(i.t)
	}
	m["(*reflect.rtype).Elem"] = func(fr *frame, args []Value) Value {
		t := fr.w.sh.typeOfR(args[0])
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return fr.w.sh.rtypeOf(u.Elem())
		case *types.Slice:
			return fr.w.sh.rtypeOf(u.Elem())
		case *types.Array:
			return fr.w.sh.rtypeOf(u.Elem())
		case *types.Map:
			return fr.w.sh.rtypeOf(u.Elem())
		}
		panic(pathEnd{"unsupported", "reflected element of " + t.String()})
	}
	m["(*reflect.rtype).Implements"] = func(fr *frame, args []Value) Value {
		t := fr.w.sh.typeOfR(args[0])
		u, ok := fr.w.sh.typeOfR(args[1]).Underlying().(*types.Interface)
		if !ok {
			panic(pathEnd{"unsupported", "reflected Implements of a non interface"})
		}
		return types.Implements(t, u)
	}
	m["(*reflect.rtype).AssignableTo"] = func(fr *frame, args []Value) Value {
		return types.AssignableTo(fr.w.sh.typeOfR(args[0]), fr.w.sh.typeOfR(args[1]))
	}
	m["(*reflect.rtype).Kind"] = func(fr *frame, args []Value) Value {
		return I(kindOf(fr.w.sh.typeOfR(args[0])))
	}
	m["(*reflect.rtype).Name"] = func(fr *frame, args []Value) Value {
		switch t := fr.w.sh.typeOfR(args[0]).(type) {
		case *types.Named:
			return t.Obj().Name()
		case *types.Basic:
			return t.Name()
		}
		return ""
	}
	m["(*reflect.rtype).String"] = func(fr *frame, args []Value) Value {
		return types.TypeString(fr.w.sh.typeOfR(args[0]), func(p *types.Package) string { return p.Name() })
	}
	value := func(name string, f func(fr *frame, x Iface) Value) {
		m["(reflect.Value)."+name] = func(fr *frame, args []Value) Value {
			x := args[0].(Struct)[0].(Iface)
			if x.t == nil && name != "IsValid" && name != "Kind" {
				fr.w.rtPanic("%s", "reflect: call of "+name+" on zero Value")
			}
			return f(fr, x)
		}
	}
	is := func(fr *frame, x Iface, name string, kinds ...reflect.Kind) {
		k := kindOf(x.t)
		for _, y := range kinds {
			if k == y {
				return
			}
		}
		fr.w.rtPanic("%s", "reflect: call of "+name+" on "+k.String()+" Value")
	}
	value("IsValid", func(fr *frame, x Iface) Value { return x.t != nil })
	value("Kind", func(fr *frame, x Iface) Value {
		if x.t == nil {
			return I(reflect.Invalid)
		}
		return I(kindOf(x.t))
	})
	value("Type", func(fr *frame, x Iface) Value { return fr.w.sh.rtypeOf(x.t) })
	value("Bool", func(fr *frame, x Iface) Value {
		is(fr, x, "Bool", reflect.Bool)
		return x.v
	})
	value("Int", func(fr *frame, x Iface) Value {
		is(fr, x, "Int", reflect.Int, reflect.Int64)
		return x.v
	})
	value("String", func(fr *frame, x Iface) Value {
		if kindOf(x.t) != reflect.String {
			panic(pathEnd{"unsupported", "reflected text of " + x.t.String()})
		}
		return x.v
	})
	value("IsNil", func(fr *frame, x Iface) Value {
		switch v := x.v.(type) {
		case *Value:
			return v == nil
		case *Map:
			return v == nil
		case *Closure:
			return v == nil
		}
		panic(pathEnd{"unsupported", "reflected IsNil of " + x.t.String()})
	})
}
