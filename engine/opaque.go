package main

// Opaque text of symbolic numbers. When a harness asks for it the text of a number that isn't constant is
// a unique literal that stands for the number, and the functions that convert text to numbers give back
// the number. So the conversions of the standard library, and of the JSON library, between numbers and
// text are assumed to be the inverse of each other, while everything that the code does with the text is
// executed.

import (
	"go/types"
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type handle struct {
	e  *Expr // 64 bits
	fl bool
}

const intHandles = 1677700000
const floatHandles = 1677800000

func (w *Worker) opaqueText(e *Expr, fl bool) string {
	for i, h := range w.handles {
		if h.e == e && h.fl == fl {
			return handleText(i, fl)
		}
	}
	w.handles = append(w.handles, handle{e, fl})
	return handleText(len(w.handles)-1, fl)
}

func handleText(i int, fl bool) string {
	if fl {
		return strconv.Itoa(floatHandles+i) + ".5"
	}
	return strconv.Itoa(intHandles + i)
}

// isOpaque tells if the text of the value has to be replaced by a literal.
func (w *Worker) isOpaque(v Value) bool {
	_, ok := v.(*Expr)
	return ok && w.opaque
}

// intHandle returns the number that corresponds to an integer that has been parsed.
func (w *Worker) intHandle(v Value) *Expr {
	if x, ok := v.(I); ok && x >= intHandles && x < intHandles+100000 {
		i := int(x - intHandles)
		if i < len(w.handles) && !w.handles[i].fl {
			return w.handles[i].e
		}
	}
	return nil
}

func (w *Worker) floatHandle(v Value) *Expr {
	if x, ok := v.(float64); ok {
		neg := x < 0
		if neg {
			return nil
		}
		if x == math.Trunc(x) && x >= intHandles && x < intHandles+100000 {
			if e := w.intHandle(I(x)); e != nil {
				return w.ctx.Conv(OS2F, e, 64)
			}
		}
		if x-0.5 == math.Trunc(x) && x >= floatHandles && x < floatHandles+100000 {
			i := int(x - floatHandles)
			if i < len(w.handles) && w.handles[i].fl {
				return w.handles[i].e
			}
		}
	}
	return nil
}

func original(fr *frame, args []Value) Value {
	return fr.w.callFunction(fr, fr.code.fn, args, nil)
}

// fits forks on whether the number can be represented with that number of bits.
func (w *Worker) fits(e *Expr, bits uint8) bool {
	if bits >= 64 {
		return true
	}
	return w.branch(w.ctx.Eq(w.ctx.Resize(w.ctx.Resize(e, bits, true), 64, true), e))
}

func (w *Worker) method(recv types.Type, name string) *ssa.Function {
	return w.findMethod(recv, nil, name)
}

func opaqueNatives(m map[string]nativeFn) {
	formatInt := func(signed bool, base, result func(fr *frame, args []Value) Value, arg int) nativeFn {
		return func(fr *frame, args []Value) Value {
			w := fr.w
			if !w.isOpaque(args[arg]) {
				return original(fr, args)
			}
			return result(fr, append([]Value{w.opaqueText(w.ctx.Resize(args[arg].(*Expr), 64, signed), false)}, args...))
		}
	}
	text := func(fr *frame, args []Value) Value { return args[0] }
	m["strconv.Itoa"] = formatInt(true, nil, text, 0)
	m["strconv.FormatInt"] = formatInt(true, nil, text, 0)
	m["strconv.FormatUint"] = formatInt(false, nil, text, 0)
	app := func(fr *frame, args []Value) Value {
		buf := args[1].([]Value)
		return append(buf[:len(buf):len(buf)], strBytes(args[0])...)
	}
	m["strconv.AppendInt"] = formatInt(true, nil, app, 1)
	m["strconv.AppendUint"] = formatInt(false, nil, app, 1)
	m["strconv.FormatFloat"] = func(fr *frame, args []Value) Value {
		if !fr.w.isOpaque(args[0]) {
			if x, ok := args[0].(float64); ok {
				return strconv.FormatFloat(x, byte(args[1].(I)), int(args[2].(I)), int(args[3].(I)))
			}
			return original(fr, args)
		}
		return fr.w.opaqueText(args[0].(*Expr), true)
	}
	m["strconv.AppendFloat"] = func(fr *frame, args []Value) Value {
		if !fr.w.isOpaque(args[1]) {
			if x, ok := args[1].(float64); ok {
				s := strconv.FormatFloat(x, byte(args[2].(I)), int(args[3].(I)), int(args[4].(I)))
				return app(fr, append([]Value{s}, args...))
			}
			return original(fr, args)
		}
		return app(fr, append([]Value{fr.w.opaqueText(args[1].(*Expr), true)}, args...))
	}
	m["strconv.ParseInt"] = func(fr *frame, args []Value) Value {
		w := fr.w
		r := original(fr, args).(Tuple)
		if e := w.intHandle(r[0]); e != nil {
			bits := uint8(64)
			if b, ok := args[2].(I); ok && b > 0 && b < 64 {
				bits = uint8(b)
			}
			if !w.fits(e, bits) {
				return original(fr, []Value{"99999999999999999999", args[1], args[2]})
			}
			return Tuple{lower(e), r[1]}
		}
		return r
	}
	m["strconv.Atoi"] = func(fr *frame, args []Value) Value {
		r := original(fr, args).(Tuple)
		if e := fr.w.intHandle(r[0]); e != nil {
			return Tuple{lower(e), r[1]}
		}
		return r
	}
	m["strconv.ParseFloat"] = func(fr *frame, args []Value) Value {
		var r Tuple
		if s, ok := args[0].(string); ok {
			if f, err := strconv.ParseFloat(s, int(args[1].(I))); err == nil {
				r = Tuple{f, Iface{}}
			}
		}
		if r == nil {
			r = original(fr, args).(Tuple)
		}
		if e := fr.w.floatHandle(r[0]); e != nil {
			if args[1] == I(32) {
				return Tuple{lower(fr.w.ctx.Conv(OF2F, fr.w.ctx.Conv(OF2F, e, 32), 64)), r[1]}
			}
			return Tuple{lower(e), r[1]}
		}
		return r
	}

	// The JSON library:
	const js = "github.com/json-iterator/go"
	for _, n := range []string{"WriteInt64", "WriteInt32", "WriteInt16", "WriteInt8", "WriteUint64", "WriteUint32", "WriteUint16", "WriteUint8"} {
		signed := n[5] == 'I'
		m["(*"+js+".Stream)."+n] = func(fr *frame, args []Value) Value {
			w := fr.w
			if !w.isOpaque(args[1]) {
				return original(fr, args)
			}
			f := w.method(fr.code.fn.Signature.Recv().Type(), "WriteRaw")
			return w.callFunction(fr, f, []Value{args[0], w.opaqueText(w.ctx.Resize(args[1].(*Expr), 64, signed), false)}, nil)
		}
	}
	for n, bits := range map[string]uint8{"ReadInt64": 64, "ReadInt32": 32} {
		bits := bits
		m["(*"+js+".Iterator)."+n] = func(fr *frame, args []Value) Value {
			w := fr.w
			r := original(fr, args)
			if e := w.intHandle(r); e != nil {
				if !w.fits(e, bits) {
					f := w.method(fr.code.fn.Signature.Recv().Type(), "ReportError")
					w.callFunction(fr, f, []Value{args[0], "ReadInt", "value overflow"}, nil)
					return I(0)
				}
				return lower(w.ctx.Resize(e, bits, true))
			}
			return r
		}
	}
	m["(*"+js+".Iterator).ReadFloat64"] = func(fr *frame, args []Value) Value {
		r := original(fr, args)
		if e := fr.w.floatHandle(r); e != nil {
			return lower(e)
		}
		return r
	}
	m["(*"+js+".Iterator).ReadFloat32"] = func(fr *frame, args []Value) Value {
		r := original(fr, args)
		if e := fr.w.floatHandle(r); e != nil {
			return lower(fr.w.ctx.Conv(OF2F, e, 32))
		}
		return r
	}
	// The conversions of arbitrary values use reflection, the values of the types that are used to
	// represent JSON documents are written and read with the functions of the library for those types:
	var writeVal func(fr *frame, stream Value, v Value)
	writeVal = func(fr *frame, stream Value, v Value) {
		w := fr.w
		recv := fr.code.fn.Signature.Recv().Type()
		call := func(name string, args ...Value) {
			w.callFunction(fr, w.method(recv, name), append([]Value{stream}, args...), nil)
		}
		i := v.(Iface)
		if i.t == nil {
			call("WriteNil")
			return
		}
		if p, ok := i.t.(*types.Pointer); ok && p.Elem().String() == "time.Time" {
			x := i.v.(*Value)
			if x == nil {
				call("WriteNil")
				return
			}
			writeVal(fr, stream, Iface{p.Elem(), w.load(x)})
			return
		}
		if i.t.String() == "time.Time" {
			r := w.callFunction(fr, w.method(i.t, "MarshalJSON"), []Value{i.v}, nil).(Tuple)
			if r[1].(Iface).t == nil {
				call("Write", r[0])
				return
			}
		}
		switch t := i.t.Underlying().(type) {
		case *types.Basic:
			switch t.Kind() {
			case types.String:
				call("WriteString", i.v)
				return
			case types.Bool:
				call("WriteBool", i.v)
				return
			case types.Float64:
				call("WriteFloat64", i.v)
				return
			case types.Int:
				call("WriteInt", i.v)
				return
			case types.Int64:
				call("WriteInt64", i.v)
				return
			}
		case *types.Slice:
			s := i.v.([]Value)
			if s == nil {
				call("WriteNil")
				return
			}
			if len(s) == 0 {
				call("WriteEmptyArray")
				return
			}
			call("WriteArrayStart")
			for k, x := range s {
				if k > 0 {
					call("WriteMore")
				}
				writeVal(fr, stream, toIface(t.Elem(), x))
			}
			call("WriteArrayEnd")
			return
		case *types.Map:
			m := i.v.(*Map)
			if m == nil {
				call("WriteNil")
				return
			}
			call("WriteObjectStart")
			it := w.newMapIter(m)
			for k := 0; ; k++ {
				key, x, ok := it.next(w)
				if !ok {
					break
				}
				if k > 0 {
					call("WriteMore")
				}
				call("WriteObjectField", key)
				writeVal(fr, stream, toIface(t.Elem(), x))
			}
			call("WriteObjectEnd")
			return
		}
		panic(pathEnd{"unsupported", "writing as JSON a value of type " + i.t.String()})
	}
	m["(*"+js+".Stream).WriteVal"] = func(fr *frame, args []Value) Value {
		writeVal(fr, args[0], args[1])
		return nil
	}
	m["(*"+js+".Iterator).ReadVal"] = func(fr *frame, args []Value) Value {
		w := fr.w
		i := args[1].(Iface)
		p, ok := i.t.Underlying().(*types.Pointer)
		if ok {
			recv := fr.code.fn.Signature.Recv().Type()
			switch t := p.Elem().Underlying().(type) {
			case *types.Interface:
				if t.NumMethods() == 0 {
					r := w.callFunction(fr, w.method(recv, "Read"), []Value{args[0]}, nil)
					w.storeTo(i.v, r)
					return nil
				}
			case *types.Basic:
				name := map[types.BasicKind]string{types.String: "ReadString", types.Bool: "ReadBool", types.Int: "ReadInt", types.Int64: "ReadInt64", types.Float64: "ReadFloat64"}[t.Kind()]
				if name != "" {
					w.storeTo(i.v, w.callFunction(fr, w.method(recv, name), []Value{args[0]}, nil))
					return nil
				}
			}
		}
		panic(pathEnd{"unsupported", "reading from JSON a value of type " + i.t.String()})
	}
}
