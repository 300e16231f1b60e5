package main

// Functions executed by the engine itself rather than from their source: the nondeterminism
// interface of the harnesses, and library functions implemented in assembler, with unsafe code or
// with reflection.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

type nativeFn = func(fr *frame, args []Value) Value

var ndFuncs map[string]nativeFn
var natives map[string]nativeFn

func (w *Worker) newVar(name string, wd uint8) *Expr {
	w.ndCount++
	return w.ctx.Var(fmt.Sprintf("%s!%d.%d", name, w.ndCount, wd), wd)
}

// domain takes note of what a symbolic input stands for, which goes to the evidence.
func (w *Worker) domain(name, format string, args ...interface{}) {
	if w.replaying() {
		return
	}
	k := w.run.name + "\x00" + name
	m := w.domains[k]
	d := fmt.Sprintf(format, args...)
	if m == nil {
		if w.domains == nil {
			w.domains = map[string]map[string]bool{}
		}
		m = map[string]bool{}
		w.domains[k] = m
	}
	m[d] = true
}

func (w *Worker) record(name, kind string, v Value) {
	w.nd = append(w.nd, NdRec{Name: name, Kind: kind, v: v})
}

func constStr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(pathEnd{"unsupported", "symbolic string where a constant is needed"})
	}
	return s
}

func ndInt(wd uint8) nativeFn {
	return func(fr *frame, args []Value) Value {
		n := constStr(args[0])
		v := fr.w.newVar(n, wd)
		fr.w.domain(n, "any %d bits", wd)
		fr.w.record(n, "int", v)
		return v
	}
}

func (w *Worker) strLenFork(name string, min, max int) int {
	if min >= max {
		w.record(name+".len", "int", I(min))
		return min
	}
	v := w.newVar(name+".len", 8)
	w.assume(w.ctx.Cmp(OUle, v, w.ctx.Const(uint64(max), 8)))
	w.assume(w.ctx.Cmp(OUle, w.ctx.Const(uint64(min), 8), v))
	n := int(w.concretize(v, "string length"))
	w.record(name+".len", "int", I(n))
	return n
}

func (w *Worker) inSet(e *Expr, chars string) *Expr {
	var set [256]bool
	for i := 0; i < len(chars); i++ {
		set[chars[i]] = true
	}
	r := w.ctx.tFals
	for i := 0; i < 256; {
		if !set[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && set[j+1] {
			j++
		}
		var k *Expr
		if i == j {
			k = w.ctx.Eq(e, w.ctx.Const(uint64(i), 8))
		} else {
			k = w.ctx.And(w.ctx.Cmp(OUle, w.ctx.Const(uint64(i), 8), e), w.ctx.Cmp(OUle, e, w.ctx.Const(uint64(j), 8)))
		}
		r = w.ctx.Or(r, k)
		i = j + 1
	}
	return r
}

func (w *Worker) boolOf(v Value) *Expr { return w.lift(v, 0) }

func init() {
	defer func() {
		reflectNatives(natives)
		templateNatives(natives)
		opaqueNatives(natives)
		installClock(natives)
	}()
	ndFuncs = map[string]nativeFn{
		"Bool": func(fr *frame, args []Value) Value {
			n := constStr(args[0])
			v := fr.w.newVar(n, 0)
			fr.w.domain(n, "any boolean")
			fr.w.record(n, "bool", v)
			return v
		},
		"Byte":    ndInt(8),
		"Int":     ndInt(64),
		"Int64":   ndInt(64),
		"Int32":   ndInt(32),
		"Uint64":  ndInt(64),
		"Float64": ndInt(64),
		"Float32": ndInt(32),
		"IntRange": func(fr *frame, args []Value) Value {
			w := fr.w
			n := constStr(args[0])
			v := w.newVar(n, 64)
			w.assume(w.ctx.Cmp(OSle, w.lift(args[1], 64), v))
			w.assume(w.ctx.Cmp(OSle, v, w.lift(args[2], 64)))
			w.domain(n, "any integer in %v..%v", args[1], args[2])
			w.record(n, "int", v)
			return v
		},
		"Choose": func(fr *frame, args []Value) Value {
			w := fr.w
			n := constStr(args[0])
			k := uint64(args[1].(I))
			if k == 0 {
				panic(pathEnd{"assume", ""})
			}
			w.domain(n, "any of %d alternatives", k)
			v := w.newVar(n, 16)
			w.assume(w.ctx.Cmp(OUlt, v, w.ctx.Const(k, 16)))
			r := I(w.concretize(v, "choice"))
			w.record(n, "int", r)
			return r
		},
		"String": func(fr *frame, args []Value) Value {
			w := fr.w
			n := constStr(args[0])
			w.domain(n, "any string of %v..%v bytes", args[1], args[2])
			l := w.strLenFork(n, int(args[1].(I)), int(args[2].(I)))
			b := make([]Value, l)
			for i := range b {
				b[i] = w.newVar(fmt.Sprintf("%s[%d]", n, i), 8)
			}
			v := mkStr(b)
			w.record(n, "string", v)
			return v
		},
		"StringOf": func(fr *frame, args []Value) Value {
			w := fr.w
			n := constStr(args[0])
			w.domain(n, "any string of %v..%v characters of %q", args[1], args[2], args[3])
			l := w.strLenFork(n, int(args[1].(I)), int(args[2].(I)))
			chars := constStr(args[3])
			b := make([]Value, l)
			for i := range b {
				e := w.newVar(fmt.Sprintf("%s[%d]", n, i), 8)
				w.assume(w.inSet(e, chars))
				b[i] = e
			}
			v := mkStr(b)
			w.record(n, "string", v)
			return v
		},
		"In": func(fr *frame, args []Value) Value {
			return lower(fr.w.inSet(fr.w.lift(args[0], 8), constStr(args[1])))
		},
		"Assume": func(fr *frame, args []Value) Value {
			fr.w.assume(fr.w.boolOf(args[0]))
			return nil
		},
		"Assert": func(fr *frame, args []Value) Value {
			msg := "assertion"
			if s, ok := args[1].(string); ok {
				msg = s
			} else {
				msg = show(args[1], fr.w.model, 0)
			}
			fr.w.assert(fr.w.boolOf(args[0]), msg)
			return nil
		},
		"Reach": func(fr *frame, args []Value) Value {
			w := fr.w
			if !w.replaying() {
				s := constStr(args[0])
				w.run.mu.Lock()
				w.run.reached[s]++
				w.run.mu.Unlock()
			}
			return nil
		},
		"Bound": func(fr *frame, args []Value) Value {
			w := fr.w
			n := constStr(args[0])
			v := args[1].(I)
			if w.run.opts.Tier == "thorough" {
				v = args[2].(I)
			}
			w.run.mu.Lock()
			w.run.bounds[n] = int(v)
			w.run.mu.Unlock()
			w.record(n, "int", v)
			return v
		},
		"Observe": func(fr *frame, args []Value) Value {
			fr.w.obs = append(fr.w.obs, Obs{Label: constStr(args[0]), v: args[1].(Iface).v})
			return nil
		},
		"And": func(fr *frame, args []Value) Value { return fr.w.andV(args[0], args[1]) },
		"Or": func(fr *frame, args []Value) Value {
			w := fr.w
			return w.notV(w.andV(w.notV(args[0]), w.notV(args[1])))
		},
		"Not":     func(fr *frame, args []Value) Value { return fr.w.notV(args[0]) },
		"Implies": func(fr *frame, args []Value) Value { return fr.w.notV(fr.w.andV(args[0], fr.w.notV(args[1]))) },
		"Iff": func(fr *frame, args []Value) Value {
			return lower(fr.w.ctx.Eq(fr.w.boolOf(args[0]), fr.w.boolOf(args[1])))
		},
		"AnyMapOrder": func(fr *frame, args []Value) Value {
			fr.w.mapOrder = args[0].(bool)
			return nil
		},
		"Opaque": func(fr *frame, args []Value) Value {
			fr.w.opaque = args[0].(bool)
			return nil
		},
		"Symbolic": func(fr *frame, args []Value) Value { return true },
		"FakeClock": func(fr *frame, args []Value) Value {
			fr.w.fake = true
			fr.w.now = I(1 << 40)
			fr.w.callValue(fr, args[0], nil)
			fr.w.fake = false
			return nil
		},
	}
	natives = map[string]nativeFn{
		"(*strings.Builder).copyCheck": func(fr *frame, args []Value) Value { return nil },
		"(*strings.Builder).String": func(fr *frame, args []Value) Value {
			p := args[0].(*Value)
			if p == nil {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			s := (*p).(Struct)
			return mkStr(s[1].([]Value))
		},
		"(*strings.Builder).Grow": func(fr *frame, args []Value) Value { return nil },
		"strings.Clone":           func(fr *frame, args []Value) Value { return args[0] },
		"internal/stringslite.Clone": func(fr *frame, args []Value) Value {
			return args[0]
		},
		"internal/bytealg.MakeNoZero": func(fr *frame, args []Value) Value {
			n := int(fr.w.concInt(args[0], "MakeNoZero"))
			s := make([]Value, n)
			for i := range s {
				s[i] = I(0)
			}
			return s
		},
		"math.Float64bits": func(fr *frame, args []Value) Value {
			if f, ok := args[0].(float64); ok {
				return I(math.Float64bits(f))
			}
			return args[0]
		},
		"math.Float64frombits": func(fr *frame, args []Value) Value {
			if i, ok := args[0].(I); ok {
				return math.Float64frombits(uint64(i))
			}
			return args[0]
		},
		"math.Float32bits": func(fr *frame, args []Value) Value {
			if f, ok := args[0].(float64); ok {
				return I(math.Float32bits(float32(f)))
			}
			return args[0]
		},
		"math.Float32frombits": func(fr *frame, args []Value) Value {
			if i, ok := args[0].(I); ok {
				return float64(math.Float32frombits(uint32(i)))
			}
			return args[0]
		},
		"math.Floor": mathFn(math.Floor), "math.Ceil": mathFn(math.Ceil), "math.Trunc": mathFn(math.Trunc),
		"math.Sqrt": mathFn(math.Sqrt), "math.Log2": mathFn(math.Log2), "math.Log": mathFn(math.Log), "math.Exp": mathFn(math.Exp),
		"runtime.GC":         func(fr *frame, args []Value) Value { return nil },
		"runtime.Gosched":    func(fr *frame, args []Value) Value { return nil },
		"runtime.KeepAlive":  func(fr *frame, args []Value) Value { return nil },
		"runtime.GOMAXPROCS": func(fr *frame, args []Value) Value { return I(1) },
		"runtime.Callers":    func(fr *frame, args []Value) Value { return I(0) },
		"runtime.SetFinalizer": func(fr *frame, args []Value) Value {
			return nil
		},
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.Mutex).TryLock":   func(fr *frame, args []Value) Value { return true },
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.WaitGroup).Add":   nop,
		"(*sync.WaitGroup).Done":  nop,
		"(*sync.WaitGroup).Wait":  nop,
		"(*sync.Pool).Put":        nop,
		"(*sync.Pool).Get":        poolGet,
		"(*sync.Map).Load":        syncMapLoad,
		"(*sync.Map).Store":       syncMapStore,
		"(*sync.Map).LoadOrStore": syncMapLoadOrStore,
		"internal/race.Acquire":   nop,
		"internal/race.Release":   nop,
		"internal/godebug.New": func(fr *frame, args []Value) Value {
			v := new(Value)
			*v = zero(fr.w.sh.findType("internal/godebug", "Setting"))
			return v
		},
		"(*internal/godebug.Setting).Value":         func(fr *frame, args []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(fr *frame, args []Value) Value { return "" },
		"(*os.File).Write": func(fr *frame, args []Value) Value {
			return Tuple{I(len(args[1].([]Value))), Iface{}}
		},
		"(*os.File).WriteString": func(fr *frame, args []Value) Value {
			return Tuple{I(strLen(args[1])), Iface{}}
		},
		"(*os.File).Close": func(fr *frame, args []Value) Value { return Iface{} },
		"time.initLocal":   nop,
		"os.Getenv":        func(fr *frame, args []Value) Value { return "" },
		"os.LookupEnv":     func(fr *frame, args []Value) Value { return Tuple{"", false} },
		"fmt.Sprintf":      func(fr *frame, args []Value) Value { return fr.sprintf(args[0], args[1].([]Value), nil) },
		"fmt.Errorf":       fmtErrorf,
		"fmt.Sprint":       func(fr *frame, args []Value) Value { return fr.sprint(args[0].([]Value), false) },
		"fmt.Sprintln":     func(fr *frame, args []Value) Value { return fr.sprint(args[0].([]Value), true) },
		"fmt.Fprintf": func(fr *frame, args []Value) Value {
			return fr.writeTo(args[0], fr.sprintf(args[1], args[2].([]Value), nil))
		},
		"fmt.Fprint": func(fr *frame, args []Value) Value {
			return fr.writeTo(args[0], fr.sprint(args[1].([]Value), false))
		},
		"fmt.Fprintln": func(fr *frame, args []Value) Value {
			return fr.writeTo(args[0], fr.sprint(args[1].([]Value), true))
		},
		"fmt.Printf":       func(fr *frame, args []Value) Value { return Tuple{I(0), Iface{}} },
		"fmt.Println":      func(fr *frame, args []Value) Value { return Tuple{I(0), Iface{}} },
		"fmt.Print":        func(fr *frame, args []Value) Value { return Tuple{I(0), Iface{}} },
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"errors.Is":        errorsIs,
		"errors.As":        errorsAs,
		"os.IsExist":       func(fr *frame, args []Value) Value { return false },
		"unicode/utf8.RuneCountInString": func(fr *frame, args []Value) Value {
			it := &strIter{s: args[0]}
			n := 0
			for {
				t := fr.w.strNext(it).(Tuple)
				if t[0] == false {
					return I(n)
				}
				n++
			}
		},
		"reflect.DeepEqual": func(fr *frame, args []Value) Value {
			return fr.w.deepEqual(args[0], args[1], 0)
		},
	}
}

func nop(fr *frame, args []Value) Value { return nil }

func atomicOp(name string) nativeFn {
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(fr *frame, args []Value) Value { return fr.w.load(args[0]) }
	case strings.HasPrefix(name, "Store"):
		return func(fr *frame, args []Value) Value { fr.w.storeTo(args[0], args[1]); return nil }
	case strings.HasPrefix(name, "Swap") || strings.HasPrefix(name, "Xchg"):
		return func(fr *frame, args []Value) Value {
			old := fr.w.load(args[0])
			fr.w.storeTo(args[0], args[1])
			return old
		}
	case strings.HasPrefix(name, "Add") || strings.HasPrefix(name, "Xadd"):
		wd := uint8(64)
		if strings.HasSuffix(name, "32") {
			wd = 32
		}
		return func(fr *frame, args []Value) Value {
			w := fr.w
			r := lower(w.ctx.Bin(OAdd, w.lift(w.load(args[0]), wd), w.lift(args[1], wd)))
			w.storeTo(args[0], r)
			return r
		}
	case strings.HasPrefix(name, "CompareAndSwap") || strings.HasPrefix(name, "Cas"):
		return func(fr *frame, args []Value) Value {
			w := fr.w
			if w.truth(w.equal(types.Typ[types.Int], w.load(args[0]), args[1])) {
				w.storeTo(args[0], args[2])
				return true
			}
			return false
		}
	}
	return nil
}

func poolGet(fr *frame, args []Value) Value {
	p := args[0].(*Value)
	s := (*p).(Struct)
	st := fr.w.sh.findType("sync", "Pool").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			cl := s[i].(*Closure)
			if cl == nil {
				return Iface{}
			}
			return fr.w.callValue(fr, cl, nil)
		}
	}
	return Iface{}
}

func (w *Worker) syncMap(p Value) *Map {
	k := fmt.Sprintf("syncmap%p", p)
	m, ok := w.scratch[k].(*Map)
	if !ok {
		m = &Map{kt: types.NewInterfaceType(nil, nil), idx: map[string]*mapEnt{}}
		w.scratch[k] = m
	}
	return m
}

func syncMapLoad(fr *frame, args []Value) Value {
	e := fr.w.mapGet(fr.w.syncMap(args[0]), args[1])
	if e == nil {
		return Tuple{Iface{}, false}
	}
	return Tuple{e.v, true}
}

func syncMapStore(fr *frame, args []Value) Value {
	fr.w.mapSet(fr.w.syncMap(args[0]), args[1], args[2])
	return nil
}

func syncMapLoadOrStore(fr *frame, args []Value) Value {
	m := fr.w.syncMap(args[0])
	e := fr.w.mapGet(m, args[1])
	if e != nil {
		return Tuple{e.v, true}
	}
	fr.w.mapSet(m, args[1], args[2])
	return Tuple{args[2], false}
}

func sortSlice(fr *frame, args []Value) Value {
	s, ok := args[0].(Iface).v.([]Value)
	if !ok {
		return nil
	}
	less := args[1]
	// Insertion sort, as the library does for short slices:
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !fr.w.truth(fr.w.callValue(fr, less, []Value{I(j), I(j - 1)})) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			fr.w.store(&s[j], b)
			fr.w.store(&s[j-1], a)
		}
	}
	return nil
}

func (w *Worker) unwrap(fr *frame, e Iface) Iface {
	f := w.findMethod(e.t, nil, "Unwrap")
	if f == nil || f.Signature.Results().Len() != 1 {
		return Iface{}
	}
	r, ok := w.callFunction(fr, f, []Value{e.v}, nil).(Iface)
	if !ok {
		return Iface{}
	}
	return r
}

func errorsIs(fr *frame, args []Value) Value {
	e, target := args[0].(Iface), args[1].(Iface)
	for e.t != nil {
		if types.Comparable(e.t) && fr.w.truth(fr.w.equal(types.NewInterfaceType(nil, nil), e, target)) {
			return true
		}
		if f := fr.w.findMethod(e.t, nil, "Is"); f != nil {
			if fr.w.truth(fr.w.callFunction(fr, f, []Value{e.v, target}, nil)) {
				return true
			}
		}
		e = fr.w.unwrap(fr, e)
	}
	return target.t == nil && args[0].(Iface).t == nil
}

func errorsAs(fr *frame, args []Value) Value {
	e, target := args[0].(Iface), args[1].(Iface)
	tt := target.t.Underlying().(*types.Pointer).Elem()
	for e.t != nil {
		if it, ok := tt.Underlying().(*types.Interface); ok {
			if fr.w.implements(e.t, it) {
				fr.w.storeTo(target.v, e)
				return true
			}
		} else if identical(e.t, tt) {
			fr.w.storeTo(target.v, e.v)
			return true
		}
		e = fr.w.unwrap(fr, e)
	}
	return false
}

func (w *Worker) deepEqual(x, y Value, depth int) Value {
	if depth > 50 {
		panic(pathEnd{"unsupported", "deep equality of deep values"})
	}
	all := func(a, b []Value) Value {
		if len(a) != len(b) {
			return false
		}
		var r Value = true
		for i := range a {
			r = w.andV(r, w.deepEqual(a[i], b[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return false
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !identical(a.t, b.t) {
			return false
		}
		return w.deepEqual(a.v, b.v, depth+1)
	case Struct:
		return all(a, y.(Struct))
	case Array:
		return all(a, y.(Array))
	case []Value:
		b := y.([]Value)
		if (a == nil) != (b == nil) {
			return false
		}
		return all(a, b)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return false
		}
		if a == nil || b == nil || a == b {
			return a == b
		}
		return w.deepEqual(*a, *b, depth+1)
	case *Map:
		b := y.(*Map)
		if a == nil || b == nil {
			return a == b
		}
		if a.live != b.live {
			return false
		}
		var r Value = true
		for _, e := range a.ents {
			o := w.mapGet(b, e.k)
			if o == nil {
				return false
			}
			r = w.andV(r, w.deepEqual(e.v, o.v, depth+1))
		}
		return r
	case *Closure:
		b := y.(*Closure)
		return a == nil && b == nil
	}
	if _, ok := x.(*Expr); ok {
		return w.equal(types.Typ[types.Int], x, y)
	}
	return w.equal(types.Typ[types.Int], x, y)
}

// fmt

func (fr *frame) writeTo(wr Value, s Value) Value {
	w := fr.w
	i := wr.(Iface)
	if i.t == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	f := w.findMethod(i.t, nil, "Write")
	return w.callFunction(fr, f, []Value{i.v, append([]Value{}, strBytes(s)...)}, nil)
}

func fmtErrorf(fr *frame, args []Value) Value {
	var wrapped Value
	s := fr.sprintf(args[0], args[1].([]Value), &wrapped)
	if wrapped != nil {
		t := fr.w.sh.findType("fmt", "wrapError")
		var v Value = Struct{s, wrapped}
		return Iface{types.NewPointer(t), &v}
	}
	return fr.w.callFunction(fr, fr.w.sh.findFunc("errors", "New"), []Value{s}, nil)
}

func (fr *frame) sprint(args []Value, ln bool) Value {
	var out Value = ""
	for i, a := range args {
		v := a.(Iface)
		if i > 0 {
			prev := args[i-1].(Iface)
			if ln || !(v.t != nil && isString(v.t)) && !(prev.t != nil && isString(prev.t)) {
				out = strConcat(out, " ")
			}
		}
		out = strConcat(out, fr.format(v, 'v', fmtFlags{prec: -1, width: -1}, 0))
	}
	if ln {
		out = strConcat(out, "\n")
	}
	return out
}

type fmtFlags struct {
	minus, plus, sharp, zero, space bool
	width, prec                     int
}

func (fr *frame) sprintf(format Value, args []Value, wrapped *Value) Value {
	f, ok := format.(string)
	if !ok {
		// The text before the first percent sign is written as it is, and the possible formats after it
		// are explored one by one.
		b := strBytes(format)
		for i, c := range b {
			if fr.w.truth(fr.w.equal(types.Typ[types.Uint8], c, I('%'))) {
				rest := make([]byte, 0, len(b)-i)
				for _, c := range b[i:] {
					rest = append(rest, byte(fr.w.concInt(c, "format string")))
				}
				return strConcat(mkStr(b[:i:i]), fr.sprintf(string(rest), args, wrapped))
			}
		}
		if len(args) > 0 {
			return strConcat(format, "%!(EXTRA)")
		}
		return format
	}
	var out Value = ""
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = strConcat(out, f[i:])
			break
		}
		out = strConcat(out, f[i:i+j])
		i += j + 1
		fl := fmtFlags{width: -1, prec: -1}
	flags:
		for i < len(f) {
			switch f[i] {
			case '-':
				fl.minus = true
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case '0':
				fl.zero = true
			case ' ':
				fl.space = true
			default:
				break flags
			}
			i++
		}
		num := func() int {
			if i < len(f) && f[i] == '*' {
				i++
				if ai < len(args) {
					n := int(fr.w.concInt(args[ai].(Iface).v, "format width"))
					ai++
					return n
				}
				return -1
			}
			s := i
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				i++
			}
			if s == i {
				return -1
			}
			n, _ := strconv.Atoi(f[s:i])
			return n
		}
		fl.width = num()
		if i < len(f) && f[i] == '.' {
			i++
			fl.prec = num()
			if fl.prec < 0 {
				fl.prec = 0
			}
		}
		if i < len(f) && f[i] == '[' {
			k := strings.IndexByte(f[i:], ']')
			if k < 0 {
				panic(pathEnd{"unsupported", "argument index in " + fr.w.where()})
			}
			n, _ := strconv.Atoi(f[i+1 : i+k])
			ai = n - 1
			i += k + 1
		}
		if i >= len(f) {
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = strConcat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			if wrapped != nil && a.t != nil {
				*wrapped = a
			}
			verb = 'v'
		}
		s := fr.format(a, verb, fl, 0)
		if n := strLen(s); fl.width > n {
			pad := " "
			if fl.zero && !fl.minus {
				pad = "0"
			}
			p := strings.Repeat(pad, fl.width-n)
			if fl.minus {
				s = strConcat(s, p)
			} else {
				s = strConcat(p, s)
			}
		}
		out = strConcat(out, s)
	}
	if ai < len(args) {
		out = strConcat(out, "%!(EXTRA)")
	}
	return out
}

func (fr *frame) format(a Iface, verb byte, fl fmtFlags, depth int) Value {
	w := fr.w
	if a.t == nil {
		if verb == 'v' || verb == 'T' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'p' {
		return fmt.Sprintf("%p", a.v)
	}
	if (verb == 'v' && !fl.sharp) || verb == 's' || verb == 'q' || verb == 'x' {
		var m string
		if w.implements(a.t, errorIface) {
			m = "Error"
		} else if f := w.findMethod(a.t, nil, "String"); f != nil && f.Signature.Params().Len() == 0 &&
			f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
			m = "String"
		}
		if m != "" {
			f := w.findMethod(a.t, nil, m)
			if p, isPtr := a.v.(*Value); isPtr && p == nil {
				// fmt catches panics of methods called on nil receivers:
				return fr.catchNil(func() Value { return w.callFunction(fr, f, []Value{a.v}, nil) }, verb)
			}
			s := w.callFunction(fr, f, []Value{copyVal(a.v)}, nil)
			return fr.format(Iface{types.Typ[types.String], s}, verb, fl, depth)
		}
	}
	u := a.t.Underlying()
	switch t := u.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch verb {
			case 's', 'v':
				if fl.sharp && verb == 'v' {
					return w.callFunction(fr, w.sh.findFunc("strconv", "Quote"), []Value{a.v}, nil)
				}
				if fl.prec >= 0 && fl.prec < strLen(a.v) {
					return strSlice(a.v, 0, fl.prec)
				}
				return a.v
			case 'q':
				return w.callFunction(fr, w.sh.findFunc("strconv", "Quote"), []Value{a.v}, nil)
			case 'x':
				if s, ok := a.v.(string); ok {
					return fmt.Sprintf("%x", s)
				}
			}
		case t.Info()&types.IsBoolean != 0:
			if w.truth(a.v) {
				return "true"
			}
			return "false"
		case t.Info()&types.IsInteger != 0:
			wd, signed, _ := intInfo(t)
			if e, ok := a.v.(*Expr); ok {
				if verb == 'd' || verb == 'v' {
					x := lower(w.ctx.Resize(e, 64, signed))
					fn := "FormatUint"
					if signed {
						fn = "FormatInt"
					}
					return w.callFunction(fr, w.sh.findFunc("strconv", fn), []Value{x, I(10)}, nil)
				}
				if verb == 'x' && !signed && !(fl.sharp && fl.zero) {
					var s Value = w.callFunction(fr, w.sh.findFunc("strconv", "FormatUint"), []Value{lower(w.ctx.Resize(e, 64, false)), I(16)}, nil)
					if fl.sharp {
						s = strConcat("0x", s)
					}
					return s
				}
				a.v = I(w.concretize(e, "formatted integer"))
			}
			spec := "%"
			if fl.zero && fl.width > 0 {
				spec += "0" + strconv.Itoa(fl.width)
			}
			if fl.sharp {
				spec = strings.Replace(spec, "%", "%#", 1)
			}
			if verb == 'v' || verb == 'd' {
				spec += "d"
			} else {
				spec += string(verb)
			}
			if signed {
				return fmt.Sprintf(spec, sext(uint64(a.v.(I)), wd))
			}
			return fmt.Sprintf(spec, uint64(a.v.(I)))
		case t.Info()&types.IsFloat != 0:
			fw, _ := isFloat(t)
			if e, ok := a.v.(*Expr); ok {
				if w.opaque {
					if fw == 32 {
						e = w.ctx.Conv(OF2F, e, 64)
					}
					return w.opaqueText(e, true)
				}
				x := w.substitute(e, "formatted floating point number")
				if fw == 32 {
					a.v = float64(math.Float32frombits(uint32(x)))
				} else {
					a.v = math.Float64frombits(x)
				}
			}
			if fw == 32 {
				return fmt.Sprintf("%"+string(verb), float32(a.v.(float64)))
			}
			return fmt.Sprintf("%"+string(verb), a.v.(float64))
		}
	case *types.Pointer:
		p, ok := a.v.(*Value)
		if ok && p == nil {
			return "<nil>"
		}
		if depth == 0 && ok {
			switch t.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return strConcat("&", fr.format(Iface{t.Elem(), *p}, verb, fl, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Slice, *types.Array:
		var elems []Value
		var et types.Type
		switch v := a.v.(type) {
		case []Value:
			elems = v
			et = u.(*types.Slice).Elem()
		case Array:
			elems = v
			et = u.(*types.Array).Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb != 'v' && verb != 'd' {
			return fr.format(Iface{types.Typ[types.String], mkStr(elems)}, verb, fl, depth)
		}
		var out Value = "["
		for i, e := range elems {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, fr.format(toIface(et, e), verb, fl, depth+1))
		}
		return strConcat(out, "]")
	case *types.Struct:
		var out Value = "{"
		for i, e := range a.v.(Struct) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			if fl.plus {
				out = strConcat(out, t.Field(i).Name()+":")
			}
			out = strConcat(out, fr.format(toIface(t.Field(i).Type(), e), verb, fl, depth+1))
		}
		return strConcat(out, "}")
	case *types.Map:
		m := a.v.(*Map)
		var out Value = "map["
		if m != nil {
			for i, e := range m.ents {
				if i > 0 {
					out = strConcat(out, " ")
				}
				out = strConcat(out, fr.format(toIface(t.Key(), e.k), verb, fl, depth+1))
				out = strConcat(out, ":")
				out = strConcat(out, fr.format(toIface(t.Elem(), e.v), verb, fl, depth+1))
			}
		}
		return strConcat(out, "]")
	case *types.Signature, *types.Chan:
		return "0xc000000000"
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("format %%%c of %s", verb, a.t)})
}

func toIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

func (fr *frame) catchNil(f func() Value, verb byte) (res Value) {
	depth, cur := fr.w.depth, fr.w.cur
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(targetPanic); ok {
				fr.w.depth, fr.w.cur = depth, cur
				res = "<nil>"
				return
			}
			panic(r)
		}
	}()
	return f()
}

func mathFn(f func(float64) float64) nativeFn {
	return func(fr *frame, args []Value) Value {
		if x, ok := args[0].(float64); ok {
			return f(x)
		}
		return f(math.Float64frombits(fr.w.substitute(fr.w.lift(args[0], 64), "argument of mathematical function")))
	}
}
