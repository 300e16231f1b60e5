package main

// Operators, conversions and built-in functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) andV(a, b Value) Value {
	x, okx := a.(bool)
	y, oky := b.(bool)
	if okx && !x || oky && !y {
		return false
	}
	if okx {
		return b
	}
	if oky {
		return a
	}
	return lower(w.ctx.And(a.(*Expr), b.(*Expr)))
}

func (w *Worker) notV(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return lower(w.ctx.Not(a.(*Expr)))
}

// equal compares two values of the same static type.
func (w *Worker) equal(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return lower(w.ctx.Eq(w.ctx.Bool(a), y.(*Expr)))
	case I:
		if b, ok := y.(I); ok {
			return a == b
		}
		b := y.(*Expr)
		return lower(w.ctx.Eq(w.ctx.Const(uint64(a), b.w), b))
	case *Expr:
		if fw, ok := isFloat(t); ok {
			return lower(w.ctx.Cmp(OFeq, a, w.lift(y, fw)))
		}
		return lower(w.ctx.Eq(a, w.lift(y, a.w)))
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		fw, _ := isFloat(t)
		return lower(w.ctx.Cmp(OFeq, w.lift(x, fw), y.(*Expr)))
	case complex128:
		return a == y.(complex128)
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return w.strEq(x, y)
	case *SStr:
		return w.strEq(x, y)
	case *Value:
		switch b := y.(type) {
		case *Value:
			return a == b
		case *SymPtr:
			return w.equal(t, x, &b.elems[w.concretize(b.idx, "pointer comparison")])
		case *Closure, *Map, *Chan:
			return false
		case nil:
			return a == nil
		}
		return false
	case *SymPtr:
		return w.equal(t, &a.elems[w.concretize(a.idx, "pointer comparison")], y)
	case *Map:
		b, ok := y.(*Map)
		if !ok {
			return a == nil
		}
		return a == b
	case *Chan:
		b, ok := y.(*Chan)
		return ok && a == b
	case *Closure:
		b, ok := y.(*Closure)
		if !ok {
			return a == nil
		}
		return a == b
	case []Value:
		b, ok := y.([]Value)
		if ok && b == nil {
			return a == nil
		}
		if a == nil {
			return ok && b == nil
		}
		panic(pathEnd{"unsupported", "slice comparison"})
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(fmt.Sprintf("compare interface with %T", y))
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !identical(a.t, b.t) {
			return false
		}
		switch a.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			w.rtPanic("comparing uncomparable type %s", a.t)
		}
		return w.equal(a.t, a.v, b.v)
	case Struct:
		st := t.Underlying().(*types.Struct)
		b := y.(Struct)
		var r Value = true
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.andV(r, w.equal(st.Field(i).Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		b := y.(Array)
		var r Value = true
		for i := range a {
			r = w.andV(r, w.equal(et, a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	}
	panic(fmt.Sprintf("equal: %T and %T", x, y))
}

func (w *Worker) strEq(x, y Value) Value {
	if strLen(x) != strLen(y) {
		return false
	}
	a, b := strBytes(x), strBytes(y)
	r := w.ctx.tTrue
	for i := range a {
		r = w.ctx.And(r, w.ctx.Eq(w.lift(a[i], 8), w.lift(b[i], 8)))
		if r.isFalse() {
			return false
		}
	}
	return lower(r)
}

// strLess builds the condition x < y.
func (w *Worker) strLess(x, y Value) Value {
	a, b := strBytes(x), strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := w.ctx.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		p, q := w.lift(a[i], 8), w.lift(b[i], 8)
		r = w.ctx.Or(w.ctx.Cmp(OUlt, p, q), w.ctx.And(w.ctx.Eq(p, q), r))
	}
	return lower(r)
}

func isSym(v Value) bool {
	_, ok := v.(*Expr)
	return ok
}

func (c *compiler) binop(op token.Token, xt, yt types.Type) func(w *Worker, x, y Value) Value {
	t := xt
	switch op {
	case token.EQL, token.NEQ:
		// One of the operands may be an interface while the other is not:
		_, xi := xt.Underlying().(*types.Interface)
		_, yi := yt.Underlying().(*types.Interface)
		neg := op == token.NEQ
		return func(w *Worker, x, y Value) Value {
			if xi && !yi {
				if _, ok := y.(Iface); !ok {
					y = Iface{yt, y}
				}
			}
			if yi && !xi {
				if _, ok := x.(Iface); !ok {
					x = Iface{xt, x}
				}
			}
			r := w.equal(t, x, y)
			if neg {
				return w.notV(r)
			}
			return r
		}
	}
	if isString(t) {
		return func(w *Worker, x, y Value) Value {
			a, okx := x.(string)
			b, oky := y.(string)
			if okx && oky {
				switch op {
				case token.ADD:
					return a + b
				case token.LSS:
					return a < b
				case token.LEQ:
					return a <= b
				case token.GTR:
					return a > b
				case token.GEQ:
					return a >= b
				}
			}
			switch op {
			case token.ADD:
				return strConcat(x, y)
			case token.LSS:
				return w.strLess(x, y)
			case token.GTR:
				return w.strLess(y, x)
			case token.LEQ:
				return w.notV(w.strLess(y, x))
			case token.GEQ:
				return w.notV(w.strLess(x, y))
			}
			panic("string op " + op.String())
		}
	}
	if fw, ok := isFloat(t); ok {
		return func(w *Worker, x, y Value) Value {
			a, okx := x.(float64)
			b, oky := y.(float64)
			if !okx || !oky {
				p, q := w.lift(x, fw), w.lift(y, fw)
				switch op {
				case token.LSS:
					return lower(w.ctx.Cmp(OFlt, p, q))
				case token.LEQ:
					return lower(w.ctx.Cmp(OFle, p, q))
				case token.GTR:
					return lower(w.ctx.Cmp(OFlt, q, p))
				case token.GEQ:
					return lower(w.ctx.Cmp(OFle, q, p))
				}
				toF := func(e *Expr) float64 {
					v := w.substitute(e, "floating point arithmetic")
					if fw == 32 {
						return float64(math.Float32frombits(uint32(v)))
					}
					return math.Float64frombits(v)
				}
				a, b = toF(p), toF(q)
			}
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
			if fw == 32 {
				r = float64(float32(r))
			}
			return r
		}
	}
	if wd, signed, ok := intInfo(t); ok {
		yw, ysigned, _ := intInfo(yt)
		return func(w *Worker, x, y Value) Value {
			a, okx := x.(I)
			b, oky := y.(I)
			if okx && oky {
				return w.intOp(op, uint64(a), uint64(b), wd, signed, yw, ysigned)
			}
			return w.symIntOp(op, x, y, wd, signed, yw, ysigned)
		}
	}
	if isBool(t) {
		return func(w *Worker, x, y Value) Value {
			switch op {
			case token.AND, token.LAND:
				return w.andV(x, y)
			case token.OR, token.LOR:
				return w.notV(w.andV(w.notV(x), w.notV(y)))
			}
			panic("bool op")
		}
	}
	return func(w *Worker, x, y Value) Value {
		a, ok1 := x.(complex128)
		b, ok2 := y.(complex128)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			}
		}
		panic(pathEnd{"unsupported", fmt.Sprintf("%s on %s", op, t)})
	}
}

func (w *Worker) intOp(op token.Token, a, b uint64, wd uint8, signed bool, yw uint8, ysigned bool) Value {
	m := mask(wd)
	switch op {
	case token.ADD:
		return I((a + b) & m)
	case token.SUB:
		return I((a - b) & m)
	case token.MUL:
		return I((a * b) & m)
	case token.QUO, token.REM:
		if b == 0 {
			w.rtPanic("integer divide by zero")
		}
		if signed {
			if op == token.QUO {
				return I(evalOp(OSdiv, wd, wd, a, b, 0, nil))
			}
			return I(evalOp(OSrem, wd, wd, a, b, 0, nil))
		}
		if op == token.QUO {
			return I(a / b)
		}
		return I(a % b)
	case token.AND:
		return I(a & b)
	case token.OR:
		return I(a | b)
	case token.XOR:
		return I(a ^ b)
	case token.AND_NOT:
		return I(a &^ b)
	case token.SHL, token.SHR:
		if ysigned && sext(b, yw) < 0 {
			w.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			return I(evalOp(OShl, wd, wd, a, b, 0, nil))
		}
		if signed {
			return I(evalOp(OAshr, wd, wd, a, b, 0, nil))
		}
		return I(evalOp(OLshr, wd, wd, a, b, 0, nil))
	}
	if signed {
		p, q := sext(a, wd), sext(b, wd)
		switch op {
		case token.LSS:
			return p < q
		case token.LEQ:
			return p <= q
		case token.GTR:
			return p > q
		case token.GEQ:
			return p >= q
		}
	}
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic("int op " + op.String())
}

func (w *Worker) symIntOp(op token.Token, x, y Value, wd uint8, signed bool, yw uint8, ysigned bool) Value {
	c := w.ctx
	if op == token.SHL || op == token.SHR {
		a := w.lift(x, wd)
		b := w.lift(y, yw)
		if ysigned && !b.isConst() {
			if w.branch(c.Cmp(OSlt, b, c.Const(0, yw))) {
				w.rtPanic("negative shift amount")
			}
		}
		// Bring the amount to the width of the operand, saturating:
		var bb *Expr
		if yw > wd {
			big := c.Cmp(OUle, c.Const(uint64(wd), yw), b)
			bb = c.Ite(big, c.Const(uint64(wd), wd), c.Resize(b, wd, false))
		} else {
			bb = c.Resize(b, wd, false)
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if signed {
				o = OAshr
			}
		}
		return lower(c.Bin(o, a, bb))
	}
	a, b := w.lift(x, wd), w.lift(y, wd)
	switch op {
	case token.ADD:
		return lower(c.Bin(OAdd, a, b))
	case token.SUB:
		return lower(c.Bin(OSub, a, b))
	case token.MUL:
		return lower(c.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if w.branch(c.Eq(b, c.Const(0, wd))) {
			w.rtPanic("integer divide by zero")
		}
		var o Op
		switch {
		case op == token.QUO && signed:
			o = OSdiv
		case op == token.QUO:
			o = OUdiv
		case signed:
			o = OSrem
		default:
			o = OUrem
		}
		return lower(c.Bin(o, a, b))
	case token.AND:
		return lower(c.Bin(OBand, a, b))
	case token.OR:
		return lower(c.Bin(OBor, a, b))
	case token.XOR:
		return lower(c.Bin(OBxor, a, b))
	case token.AND_NOT:
		return lower(c.Bin(OBand, a, c.Un(OBnot, b)))
	}
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return lower(c.Cmp(lt, a, b))
	case token.LEQ:
		return lower(c.Cmp(le, a, b))
	case token.GTR:
		return lower(c.Cmp(lt, b, a))
	case token.GEQ:
		return lower(c.Cmp(le, b, a))
	}
	panic("symbolic int op " + op.String())
}

func elemKind(t types.Type) types.BasicKind {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return types.Invalid
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	if !ok {
		return types.Invalid
	}
	return b.Kind()
}

func (c *compiler) convert(from, to types.Type) func(w *Worker, v Value) Value {
	fw, fs, fint := intInfo(from)
	tw, ts, tint := intInfo(to)
	ff, fflt := isFloat(from)
	tf, tflt := isFloat(to)
	switch {
	case isString(to) && elemKind(from) == types.Uint8:
		return func(w *Worker, v Value) Value {
			return mkStr(v.([]Value))
		}
	case isString(to) && elemKind(from) == types.Int32:
		return func(w *Worker, v Value) Value {
			var out Value = ""
			for _, r := range v.([]Value) {
				out = strConcat(out, w.runeToString(r, 32, true))
			}
			return out
		}
	case elemKind(to) == types.Uint8 && isString(from):
		return func(w *Worker, v Value) Value {
			b := strBytes(v)
			return append(make([]Value, 0, len(b)), b...)
		}
	case elemKind(to) == types.Int32 && isString(from):
		return func(w *Worker, v Value) Value {
			out := []Value{}
			it := &strIter{s: v}
			for {
				t := w.strNext(it).(Tuple)
				if t[0] == false {
					return out
				}
				out = append(out, t[2])
			}
		}
	case isString(to) && fint:
		return func(w *Worker, v Value) Value { return w.runeToString(v, fw, fs) }
	case isString(to) && isString(from):
		return func(w *Worker, v Value) Value { return v }
	case fint && tint:
		return func(w *Worker, v Value) Value {
			switch x := v.(type) {
			case I:
				if fs {
					return I(uint64(sext(uint64(x), fw)) & mask(tw))
				}
				return I(uint64(x) & mask(tw))
			case *Expr:
				return lower(w.ctx.Resize(x, tw, fs))
			case *Value: // uintptr of a pointer
				return v
			}
			panic(pathEnd{"unsupported", fmt.Sprintf("int conversion of %T", v)})
		}
	case fint && tflt:
		return func(w *Worker, v Value) Value {
			if e, ok := v.(*Expr); ok {
				if fs {
					return lower(w.ctx.Conv(OS2F, e, tf))
				}
				v = I(w.substitute(e, "integer to floating point"))
			}
			var r float64
			if fs {
				r = float64(sext(uint64(v.(I)), fw))
			} else {
				r = float64(uint64(v.(I)))
			}
			if tf == 32 {
				r = float64(float32(r))
			}
			return r
		}
	case fflt && tint:
		return func(w *Worker, v Value) Value {
			if e, ok := v.(*Expr); ok {
				if ts && tw == 64 {
					return lower(w.ctx.Conv(OF2S, e, 64))
				}
				u := w.substitute(e, "floating point to integer")
				if ff == 32 {
					v = float64(math.Float32frombits(uint32(u)))
				} else {
					v = math.Float64frombits(u)
				}
			}
			f := v.(float64)
			if ts {
				return I(uint64(int64(f)) & mask(tw))
			}
			return I(uint64(f) & mask(tw))
		}
	case fflt && tflt:
		return func(w *Worker, v Value) Value {
			if e, ok := v.(*Expr); ok {
				if ff == tf {
					return v
				}
				if e != nil {
					return lower(w.ctx.Conv(OF2F, e, tf))
				}
				u := w.substitute(e, "floating point conversion")
				if ff == 32 {
					v = float64(math.Float32frombits(uint32(u)))
				} else {
					v = math.Float64frombits(u)
				}
			}
			if tf == 32 {
				return float64(float32(v.(float64)))
			}
			return v
		}
	}
	return func(w *Worker, v Value) Value { return v }
}

func (w *Worker) runeToString(v Value, wd uint8, signed bool) Value {
	switch x := v.(type) {
	case I:
		n := int64(x)
		if signed {
			n = sext(uint64(x), wd)
		}
		if n < 0 || n > utf8.MaxRune {
			return string(utf8.RuneError)
		}
		return string(rune(n))
	case *Expr:
		if w.branch(w.ctx.Cmp(OUlt, x, w.ctx.Const(0x80, x.w))) {
			return &SStr{[]Value{lower(w.ctx.Resize(x, 8, false))}}
		}
		f := w.sh.findFunc("unicode/utf8", "AppendRune")
		r := w.callFunction(w.cur, f, []Value{[]Value(nil), lower(w.ctx.Resize(x, 32, signed))}, nil)
		return mkStr(r.([]Value))
	}
	panic("runeToString")
}

func (c *compiler) builtin(b *ssa.Builtin, call *ssa.CallCommon) func(*frame) Value {
	var gs []func(*frame) Value
	for _, a := range call.Args {
		gs = append(gs, c.get(a))
	}
	var argT []types.Type
	for _, a := range call.Args {
		argT = append(argT, a.Type())
	}
	switch b.Name() {
	case "Sizeof":
		n := I(types.SizesFor("gc", "amd64").Sizeof(argT[0]))
		return func(fr *frame) Value { return n }
	case "min", "max":
		f := c.binop(token.LSS, argT[0], argT[0])
		isMin := b.Name() == "min"
		return func(fr *frame) Value {
			r := gs[0](fr)
			for _, g := range gs[1:] {
				v := g(fr)
				if fr.w.truth(f(fr.w, v, r)) == isMin {
					r = v
				}
			}
			return r
		}
	case "clear":
		return func(fr *frame) Value {
			switch x := gs[0](fr).(type) {
			case *Map:
				if x != nil {
					for _, e := range append([]*mapEnt(nil), x.ents...) {
						fr.w.mapDelete(x, e.k)
					}
				}
			case []Value:
				et := argT[0].Underlying().(*types.Slice).Elem()
				for i := range x {
					fr.w.store(&x[i], zero(et))
				}
			}
			return nil
		}
	case "append":
		var et types.Type
		if s, ok := argT[0].Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		g := newGrowth(et)
		return func(fr *frame) Value { return fr.w.appendV(gs[0](fr), gs[1](fr), g) }
	}
	return func(fr *frame) Value {
		args := make([]Value, len(gs))
		for i, g := range gs {
			args[i] = g(fr)
		}
		return fr.w.callBuiltin(fr, b, args)
	}
}

// growth describes how the runtime grows slices of a type.
type growth struct {
	elem   types.Type
	size   int
	noscan bool
}

func newGrowth(elem types.Type) growth {
	g := growth{elem: elem, size: 8}
	if elem != nil {
		g.size = int(types.SizesFor("gc", "amd64").Sizeof(elem))
		g.noscan = !hasPointers(elem)
	}
	return g
}

func hasPointers(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.String || x.Kind() == types.UnsafePointer
	case *types.Array:
		return x.Len() > 0 && hasPointers(x.Elem())
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if hasPointers(x.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// sizeClasses are the ones of the allocator of the runtime.
var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448,
	480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144,
	6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// capacity is the capacity that the runtime gives to a slice on the heap that grows.
func (g growth) capacity(newLen, oldCap int) int {
	n := oldCap
	switch {
	case newLen > 2*oldCap:
		n = newLen
	case oldCap < 256:
		n = 2 * oldCap
	default:
		for n < newLen {
			n += (n + 3*256) >> 2
		}
	}
	if g.size == 0 {
		return newLen
	}
	mem, extra := n*g.size, 0
	if mem <= 32768-8 {
		if !g.noscan && mem > 512 {
			extra = 8
		}
		i := sort.SearchInts(sizeClasses, mem+extra)
		return (sizeClasses[i] - extra) / g.size
	}
	return (mem + 8191) &^ 8191 / g.size
}

func (w *Worker) appendV(s, t Value, g growth) Value {
	et := g.elem
	var add []Value
	switch x := t.(type) {
	case []Value:
		add = x
	case string, *SStr:
		add = strBytes(x)
	default:
		panic(pathEnd{"unsupported", fmt.Sprintf("append of %T", t)})
	}
	dst := s.([]Value)
	if len(add) == 0 {
		return dst
	}
	if len(dst)+len(add) <= cap(dst) {
		ext := dst[:len(dst)+len(add)]
		for i, v := range add {
			w.set(&ext[len(dst)+i], copyVal(v))
		}
		return ext
	}
	n := len(dst) + len(add)
	c := g.capacity(n, cap(dst))
	ns := make([]Value, n, c)
	for i, v := range dst {
		ns[i] = copyVal(v)
	}
	for i, v := range add {
		ns[len(dst)+i] = copyVal(v)
	}
	if et != nil {
		full := ns[:c]
		for i := n; i < c; i++ {
			full[i] = zero(et)
		}
	}
	return ns
}

func (w *Worker) callBuiltin(fr *frame, b *ssa.Builtin, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return I(strLen(x))
		case []Value:
			return I(len(x))
		case Array:
			return I(len(x))
		case *Map:
			if x == nil {
				return I(0)
			}
			return I(x.live)
		case *Chan:
			if x == nil {
				return I(0)
			}
			return I(len(x.buf))
		case *Value:
			if x == nil {
				return I(0)
			}
			return I(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return I(cap(x))
		case Array:
			return I(len(x))
		case *Value:
			return I(len((*x).(Array)))
		case *Chan:
			return I(x.cap)
		}
	case "append":
		return w.appendV(args[0], args[1], newGrowth(nil))
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch x := args[1].(type) {
		case []Value:
			src = x
		default:
			src = strBytes(x)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.store(&dst[i], tmp[i])
		}
		return I(n)
	case "delete":
		w.mapDelete(args[0].(*Map), args[1])
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0].(Iface), trace: w.where()})
	case "recover":
		// fr is the deferred function; the frame that is panicking is its caller.
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			v := fr.caller.panicVal.v
			fr.caller.panicking = false
			fr.caller.recovered = true
			return v
		}
		return Iface{}
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			w.rtPanic("close of nil channel")
		}
		if ch.closed {
			w.rtPanic("close of closed channel")
		}
		ch.closed = true
		w.undo = append(w.undo, undoRec{fn: func() { ch.closed = false }})
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return (*Value)(nil)
	case "String": // unsafe.String
		n := int(w.concInt(args[1], "unsafe.String length"))
		if n == 0 {
			return ""
		}
		if k, ok := args[0].(*sliceData); ok {
			return mkStr(k.s[:n])
		}
		panic(pathEnd{"unsupported", "unsafe.String of " + fmt.Sprintf("%T", args[0])})
	case "StringData":
		return &sliceData{strBytes(args[0])}
	case "SliceData":
		return &sliceData{args[0].([]Value)}
	case "Slice":
		n := int(w.concInt(args[1], "unsafe.Slice length"))
		if k, ok := args[0].(*sliceData); ok {
			return k.s[:n]
		}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	}
	panic(pathEnd{"unsupported", "builtin " + b.Name() + " in " + w.where()})
}

// sliceData is the result of unsafe.SliceData and unsafe.StringData.
type sliceData struct{ s []Value }
