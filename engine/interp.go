package main

// Execution of the SSA form of Go code. Every function is compiled once to closures, which are
// shared by the workers; all the state lives in frames and workers.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type fnCode struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*blockCode
	params   []int
	freevars []int
	hasDefer bool
	recoverB int
	override *override
	external bool
	executed int32
	initPkg  bool
	results  *types.Tuple
}

type blockCode struct {
	phis   []phiCode
	instrs []func(*frame)
	term   func(*frame) int
	preds  map[int]int
	n      int
}

type phiCode struct {
	dst   int
	edges []func(*frame) Value
}

type deferRec struct {
	fn   Value
	args []Value
	next *deferRec
}

type frame struct {
	w         *Worker
	code      *fnCode
	regs      []Value
	block     int
	prev      int
	defers    *deferRec
	result    Value
	panicking bool
	panicVal  targetPanic
	caller    *frame
	recovered bool
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (sh *Shared) code(fn *ssa.Function) *fnCode {
	if c, ok := sh.codes.Load(fn); ok {
		return c.(*fnCode)
	}
	c := sh.compile(fn)
	actual, _ := sh.codes.LoadOrStore(fn, c)
	return actual.(*fnCode)
}

type compiler struct {
	sh   *Shared
	fn   *ssa.Function
	regs map[ssa.Value]int
	n    int
}

func fnKey(fn *ssa.Function) string {
	s := fn.String()
	if o := fn.Origin(); o != nil {
		s = o.String()
	}
	return s
}

func (sh *Shared) compile(fn *ssa.Function) *fnCode {
	code := &fnCode{fn: fn, recoverB: -1, results: fn.Signature.Results()}
	code.override = sh.findOverride(fn)
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		code.initPkg = true
	}
	if fn.Blocks == nil && fn.Package() != nil {
		sh.build(fn.Package())
	}
	if fn.Blocks == nil {
		if o := fn.Origin(); o != nil && o.Package() != nil {
			sh.build(o.Package())
		}
	}
	if fn.Blocks == nil {
		code.external = true
		return code
	}
	c := &compiler{sh: sh, fn: fn, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		code.params = append(code.params, c.reg(p))
	}
	for _, p := range fn.FreeVars {
		code.freevars = append(code.freevars, c.reg(p))
	}
	if fn.Recover != nil {
		code.recoverB = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		bc := &blockCode{preds: map[int]int{}}
		for i, p := range b.Preds {
			bc.preds[p.Index] = i
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				ph := phiCode{dst: c.reg(x)}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, c.get(e))
				}
				bc.phis = append(bc.phis, ph)
			case *ssa.DebugRef:
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				bc.term = c.term(x, b)
			default:
				if _, ok := in.(*ssa.Defer); ok {
					code.hasDefer = true
				}
				bc.instrs = append(bc.instrs, c.instr(in))
			}
		}
		if bc.term == nil {
			bc.term = func(fr *frame) int { panic("block without terminator") }
		}
		bc.n = len(bc.instrs) + 1 + len(bc.phis)
		code.blocks = append(code.blocks, bc)
	}
	code.nregs = c.n
	return code
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := c.n
	c.n++
	c.regs[v] = i
	return i
}

func constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return zero(k.Type())
	}
	t := k.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(k.Value)
		case b.Info()&types.IsInteger != 0:
			w, _, _ := intInfo(t)
			v := constant.ToInt(k.Value)
			if i, exact := constant.Int64Val(v); exact {
				return I(uint64(i) & mask(w))
			}
			u, _ := constant.Uint64Val(v)
			return I(u & mask(w))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return k.Complex128()
		case b.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			return string(rune(k.Int64()))
		}
	}
	panic(fmt.Sprintf("constVal %v", k))
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (c *compiler) get(v ssa.Value) func(*frame) Value {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil && isAgg(x.Type()) {
			t := x.Type()
			return func(*frame) Value { return zero(t) }
		}
		k := constVal(x)
		return func(*frame) Value { return k }
	case *ssa.Global:
		return func(fr *frame) Value { return fr.w.global(x) }
	case *ssa.Function:
		cl := &Closure{fn: x}
		return func(*frame) Value { return cl }
	case *ssa.Builtin:
		cl := &Closure{builtin: x}
		return func(*frame) Value { return cl }
	}
	i := c.reg(v)
	return func(fr *frame) Value { return fr.regs[i] }
}

// global returns the address of a global variable, initializing its package if needed.
func (w *Worker) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		if !w.inited[g.Pkg] {
			w.initPackage(g.Pkg)
		}
		return p
	}
	for _, m := range g.Pkg.Members {
		if gl, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[gl]; !ok {
				v := zero(gl.Type().Underlying().(*types.Pointer).Elem())
				w.globals[gl] = &v
			}
		}
	}
	if _, ok := w.globals[g]; !ok {
		v := zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.globals[g] = &v
	}
	if !w.inited[g.Pkg] {
		w.initPackage(g.Pkg)
	}
	return w.globals[g]
}

func (w *Worker) initPackage(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	switch p.Pkg.Path() {
	case "runtime", "reflect", "syscall", "internal/cpu", "os/signal", "internal/godebug", "unsafe", "internal/poll":
		return
	}
	w.sh.build(p)
	init := p.Func("init")
	if init == nil {
		return
	}
	saved, steps := w.cur, w.steps
	depth := w.depth
	w.initing++
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprintf("initialization of %s: %v", p.Pkg.Path(), r)
				if tp, ok := r.(targetPanic); ok {
					msg = fmt.Sprintf("initialization of %s: panic %s %s", p.Pkg.Path(), show(tp.v, nil, 0), tp.trace)
				}
				w.sh.note(msg)
			}
		}()
		w.callFunction(nil, init, nil, nil)
	}()
	w.initing--
	w.cur, w.steps, w.depth = saved, steps, depth
}

// initInstr executes one of the instructions of the initialization of a package. What can't be executed
// leaves the zero value.
func (w *Worker) initInstr(fr *frame, in func(*frame)) {
	depth := w.depth
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprintf("initialization of %s: %v", fr.code.fn.Pkg.Pkg.Path(), r)
			if tp, ok := r.(targetPanic); ok {
				msg = fmt.Sprintf("initialization of %s: panic %s %s", fr.code.fn.Pkg.Pkg.Path(), show(tp.v, nil, 0), tp.trace)
			}
			w.sh.note(msg)
			w.cur = fr
			w.depth = depth
		}
	}()
	in(fr)
}

func (w *Worker) set(addr *Value, v Value) {
	if w.initing == 0 {
		w.undo = append(w.undo, undoRec{addr: addr, old: *addr})
	}
	*addr = v
}

// store assigns keeping the identity of the fields of aggregates.
func (w *Worker) store(addr *Value, v Value) {
	if v == nil && w.initing > 0 {
		return
	}
	switch x := v.(type) {
	case Struct:
		old, ok := (*addr).(Struct)
		if !ok || len(old) != len(x) {
			w.set(addr, copyVal(v))
			return
		}
		for i := range x {
			w.store(&old[i], x[i])
		}
	case Array:
		old, ok := (*addr).(Array)
		if !ok || len(old) != len(x) {
			w.set(addr, copyVal(v))
			return
		}
		for i := range x {
			w.store(&old[i], x[i])
		}
	default:
		w.set(addr, v)
	}
}

func (w *Worker) rtPanic(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	t := w.sh.rtErrType
	panic(targetPanic{v: Iface{t: t, v: msg}, trace: w.where()})
}

func (w *Worker) load(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*x)
	case *SymPtr:
		return w.loadSym(x)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("load through %T", p)})
}

func (w *Worker) lift(v Value, wd uint8) *Expr {
	switch x := v.(type) {
	case *Expr:
		return x
	case I:
		return w.ctx.Const(uint64(x), wd)
	case bool:
		return w.ctx.Bool(x)
	case float64:
		if wd == 32 {
			return w.ctx.Const(uint64(math.Float32bits(float32(x))), 32)
		}
		return w.ctx.Const(math.Float64bits(x), 64)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("lift %T", v)})
}

func lower(e *Expr) Value {
	if e.isConst() {
		if e.w == 0 {
			return e.val != 0
		}
		return I(e.val)
	}
	return e
}

func (w *Worker) loadSym(p *SymPtr) Value {
	if p.w > 0 || p.bool_ {
		allConst := p.w > 0
		for _, e := range p.elems {
			if _, ok := e.(I); !ok {
				allConst = false
				break
			}
		}
		if allConst {
			tab := make([]uint64, len(p.elems))
			for i, e := range p.elems {
				tab[i] = uint64(e.(I))
			}
			return lower(w.ctx.Table(tab, p.idx, p.w))
		}
		if len(p.elems) <= 64 {
			r := w.lift(p.elems[len(p.elems)-1], p.w)
			for i := len(p.elems) - 2; i >= 0; i-- {
				r = w.ctx.Ite(w.ctx.Eq(p.idx, w.ctx.Const(uint64(i), p.idx.w)), w.lift(p.elems[i], p.w), r)
			}
			return lower(r)
		}
	}
	i := w.concretize(p.idx, "symbolic index")
	return copyVal(p.elems[i])
}

func (w *Worker) storeTo(p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.store(x, v)
		return
	case *SymPtr:
		i := w.concretize(x.idx, "store at symbolic index")
		w.store(&x.elems[i], v)
		return
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("store through %T", p)})
}

// callFunction executes a function.
func (w *Worker) callFunction(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	code := w.sh.code(fn)
	if code.initPkg && w.initing > 0 && caller != nil {
		return nil // packages are initialized on first use
	}
	if code.executed == 0 {
		atomic.StoreInt32(&code.executed, 1)
	}
	if code.override != nil && !(caller != nil && (caller.code.override == code.override || code.override.redirect != nil && caller.code.fn == code.override.redirect)) {
		ov := code.override
		if ov.native != nil {
			fr := &frame{w: w, code: code, caller: caller}
			saved := w.cur
			w.cur = fr
			r := ov.native(fr, args)
			w.cur = saved
			return r
		}
		return w.callFunction(caller, ov.redirect, args, env)
	}
	if code.external {
		if w.initing > 0 {
			w.sh.note("external function in initialization: " + fn.String())
			if fn.Signature.Results().Len() == 0 {
				return nil
			}
			return zero(fn.Signature.Results())
		}
		panic(pathEnd{"unsupported", "external function " + fn.String() + " called from " + w.where()})
	}
	fr := &frame{w: w, code: code, caller: caller, regs: make([]Value, code.nregs)}
	if len(args) != len(code.params) {
		panic(fmt.Sprintf("%s: %d args for %d params", fn, len(args), len(code.params)))
	}
	for i, p := range code.params {
		fr.regs[p] = args[i]
	}
	for i, p := range code.freevars {
		fr.regs[p] = env[i]
	}
	w.depth++
	if w.depth > w.sh.maxDepth {
		panic(pathEnd{"limit", "recursion deeper than the bound in " + fn.String()})
	}
	saved := w.cur
	w.cur = fr
	if code.hasDefer {
		fr.block = 0
		for fr.block >= 0 {
			fr.runProtected()
		}
	} else {
		fr.loop()
	}
	w.cur = saved
	w.depth--
	return fr.result
}

func (fr *frame) runProtected() {
	depth := fr.w.depth
	done := false
	defer func() {
		if done {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.w.cur = fr
		fr.w.depth = depth
		fr.panicking = true
		fr.panicVal = tp
		fr.runDefers()
		// Recovered:
		fr.block = fr.code.recoverB
		if fr.block < 0 {
			// Without named results the function returns zero values:
			if fr.code.results.Len() > 0 {
				fr.result = zero(fr.code.results)
			}
		}
	}()
	fr.loop()
	done = true
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferRec) {
	ok := false
	depth := fr.w.depth
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.w.cur = fr
			fr.w.depth = depth
			fr.panicking = true
			fr.panicVal = tp
		}
	}()
	fr.w.callValue(fr, d.fn, d.args)
	ok = true
}

func (fr *frame) loop() {
	w := fr.w
	code := fr.code
	b := fr.block
	for {
		bc := code.blocks[b]
		w.steps += bc.n
		if w.steps > w.sh.maxSteps && w.initing == 0 {
			panic(pathEnd{"limit", "more steps than the bound in " + code.fn.String()})
		}
		if len(bc.phis) > 0 {
			pi := bc.preds[fr.prev]
			if len(bc.phis) == 1 {
				ph := &bc.phis[0]
				fr.regs[ph.dst] = ph.edges[pi](fr)
			} else {
				tmp := make([]Value, len(bc.phis))
				for i := range bc.phis {
					tmp[i] = bc.phis[i].edges[pi](fr)
				}
				for i := range bc.phis {
					fr.regs[bc.phis[i].dst] = tmp[i]
				}
			}
		}
		if code.initPkg {
			for _, in := range bc.instrs {
				w.initInstr(fr, in)
			}
		} else {
			for _, in := range bc.instrs {
				in(fr)
			}
		}
		n := bc.term(fr)
		if n < 0 {
			fr.block = -1
			return
		}
		fr.prev = b
		b = n
		fr.block = n
	}
}

func (w *Worker) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Expr:
		return w.branch(x)
	}
	panic(fmt.Sprintf("truth: %T", v))
}

func (c *compiler) term(in ssa.Instruction, b *ssa.BasicBlock) func(*frame) int {
	switch x := in.(type) {
	case *ssa.If:
		cond := c.get(x.Cond)
		t, f := b.Succs[0].Index, b.Succs[1].Index
		return func(fr *frame) int {
			if fr.w.truth(cond(fr)) {
				return t
			}
			return f
		}
	case *ssa.Jump:
		t := b.Succs[0].Index
		return func(*frame) int { return t }
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
			return func(fr *frame) int { return -1 }
		case 1:
			g := c.get(x.Results[0])
			return func(fr *frame) int { fr.result = g(fr); return -1 }
		}
		var gs []func(*frame) Value
		for _, r := range x.Results {
			gs = append(gs, c.get(r))
		}
		return func(fr *frame) int {
			t := make(Tuple, len(gs))
			for i, g := range gs {
				t[i] = g(fr)
			}
			fr.result = t
			return -1
		}
	case *ssa.Panic:
		g := c.get(x.X)
		return func(fr *frame) int {
			v, ok := g(fr).(Iface)
			if !ok {
				panic("panic with non interface")
			}
			if v.t == nil {
				fr.w.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(targetPanic{v: v, trace: fr.w.where()})
		}
	}
	panic("term")
}

func (w *Worker) concInt(v Value, why string) int64 {
	switch x := v.(type) {
	case I:
		return int64(x)
	case *Expr:
		return sext(w.concretize(x, why), x.w)
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func signedVal(v Value, wd uint8, signed bool) int64 {
	u := uint64(v.(I))
	if signed {
		return sext(u, wd)
	}
	return int64(u)
}

func (c *compiler) instr(in ssa.Instruction) func(*frame) {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			v := new(Value)
			*v = zero(t)
			fr.regs[d] = v
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		d := c.reg(x)
		a, b := c.get(x.X), c.get(x.Y)
		f := c.binop(x.Op, x.X.Type(), x.Y.Type())
		return func(fr *frame) { fr.regs[d] = f(fr.w, a(fr), b(fr)) }
	case *ssa.Call:
		d := c.reg(x)
		f := c.call(&x.Call)
		return func(fr *frame) { fr.regs[d] = f(fr) }
	case *ssa.Defer:
		prep := c.prepCall(&x.Call)
		return func(fr *frame) {
			fn, args := prep(fr)
			fr.defers = &deferRec{fn, args, fr.defers}
		}
	case *ssa.Go:
		prep := c.prepCall(&x.Call)
		return func(fr *frame) {
			fn, args := prep(fr)
			fr.w.callValue(fr, fn, args)
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.ChangeInterface:
		d, g := c.reg(x), c.get(x.X)
		return func(fr *frame) { fr.regs[d] = g(fr) }
	case *ssa.ChangeType:
		d, g := c.reg(x), c.get(x.X)
		return func(fr *frame) { fr.regs[d] = g(fr) }
	case *ssa.Convert:
		d, g := c.reg(x), c.get(x.X)
		f := c.convert(x.X.Type(), x.Type())
		return func(fr *frame) { fr.regs[d] = f(fr.w, g(fr)) }
	case *ssa.MultiConvert:
		d, g := c.reg(x), c.get(x.X)
		f := c.convert(x.X.Type(), x.Type())
		return func(fr *frame) { fr.regs[d] = f(fr.w, g(fr)) }
	case *ssa.MakeInterface:
		d, g := c.reg(x), c.get(x.X)
		t := x.X.Type()
		return func(fr *frame) { fr.regs[d] = Iface{t, g(fr)} }
	case *ssa.MakeClosure:
		d := c.reg(x)
		fn := x.Fn.(*ssa.Function)
		var gs []func(*frame) Value
		for _, b := range x.Bindings {
			gs = append(gs, c.get(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(gs))
			for i, g := range gs {
				env[i] = g(fr)
			}
			fr.regs[d] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeMap:
		d := c.reg(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			fr.regs[d] = &Map{kt: kt, idx: map[string]*mapEnt{}}
		}
	case *ssa.MakeChan:
		d, g := c.reg(x), c.get(x.Size)
		return func(fr *frame) {
			fr.regs[d] = &Chan{cap: int(fr.w.concInt(g(fr), "channel size"))}
		}
	case *ssa.MakeSlice:
		d := c.reg(x)
		l, cp := c.get(x.Len), c.get(x.Cap)
		t := x.Type().Underlying().(*types.Slice).Elem()
		agg := isAgg(t)
		return func(fr *frame) {
			n := fr.w.concInt(l(fr), "make length")
			m := fr.w.concInt(cp(fr), "make capacity")
			if n < 0 || n > 1<<24 {
				fr.w.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<24 {
				fr.w.rtPanic("makeslice: cap out of range")
			}
			s := make([]Value, m)
			if agg {
				for i := range s {
					s[i] = zero(t)
				}
			} else {
				z := zero(t)
				for i := range s {
					s[i] = z
				}
			}
			fr.regs[d] = s[:n]
		}
	case *ssa.Extract:
		d, g, i := c.reg(x), c.get(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[d] = g(fr).(Tuple)[i] }
	case *ssa.Field:
		d, g, i := c.reg(x), c.get(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = copyVal(g(fr).(Struct)[i]) }
	case *ssa.FieldAddr:
		d, g, i := c.reg(x), c.get(x.X), x.Field
		return func(fr *frame) {
			switch p := g(fr).(type) {
			case *Value:
				if p == nil {
					fr.w.rtPanic("invalid memory address or nil pointer dereference")
				}
				s, ok := (*p).(Struct)
				if !ok {
					panic(pathEnd{"unsupported", fmt.Sprintf("field of %T in %s", *p, fr.w.where())})
				}
				fr.regs[d] = &s[i]
			case *SymPtr:
				k := fr.w.concretize(p.idx, "field through symbolic index")
				fr.regs[d] = &p.elems[k].(Struct)[i]
			default:
				panic(pathEnd{"unsupported", fmt.Sprintf("field address through %T", p)})
			}
		}
	case *ssa.Index:
		d, g, ix := c.reg(x), c.get(x.X), c.get(x.Index)
		iw, isg, _ := intInfo(x.Index.Type())
		var et types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			et = u.Elem()
		default:
			et = types.Typ[types.Uint8]
		}
		ew, _, _ := intInfo(et)
		return func(fr *frame) {
			w := fr.w
			var elems []Value
			switch v := g(fr).(type) {
			case Array:
				elems = v
			case string:
				if k, ok := ix(fr).(I); ok {
					i := signedVal(k, iw, isg)
					if i < 0 || i >= int64(len(v)) {
						w.rtPanic("index out of range [%d] with length %d", i, len(v))
					}
					fr.regs[d] = I(v[i])
					return
				}
				elems = strBytes(v)
			case *SStr:
				elems = v.b
			default:
				panic(pathEnd{"unsupported", fmt.Sprintf("index of %T", v)})
			}
			switch k := ix(fr).(type) {
			case I:
				i := signedVal(k, iw, isg)
				if i < 0 || i >= int64(len(elems)) {
					w.rtPanic("index out of range [%d] with length %d", i, len(elems))
				}
				fr.regs[d] = copyVal(elems[i])
			case *Expr:
				w.boundsCheck(k, isg, len(elems))
				fr.regs[d] = w.loadSym(&SymPtr{elems: elems, idx: w.ctx.Resize(k, 64, isg), w: ew, bool_: isBool(et)})
			}
		}
	case *ssa.IndexAddr:
		d, g, ix := c.reg(x), c.get(x.X), c.get(x.Index)
		iw, isg, _ := intInfo(x.Index.Type())
		et := x.Type().Underlying().(*types.Pointer).Elem()
		ew, _, _ := intInfo(et)
		eb := isBool(et)
		return func(fr *frame) {
			w := fr.w
			var elems []Value
			switch p := g(fr).(type) {
			case []Value:
				elems = p
			case *Value:
				if p == nil {
					w.rtPanic("invalid memory address or nil pointer dereference")
				}
				a, ok := (*p).(Array)
				if !ok {
					panic(pathEnd{"unsupported", fmt.Sprintf("index address of %T", *p)})
				}
				elems = a
			default:
				panic(pathEnd{"unsupported", fmt.Sprintf("index address through %T", p)})
			}
			switch k := ix(fr).(type) {
			case I:
				i := signedVal(k, iw, isg)
				if i < 0 || i >= int64(len(elems)) {
					w.rtPanic("index out of range [%d] with length %d", i, len(elems))
				}
				fr.regs[d] = &elems[i]
			case *Expr:
				w.boundsCheck(k, isg, len(elems))
				fr.regs[d] = &SymPtr{elems: elems, idx: w.ctx.Resize(k, 64, isg), w: ew, bool_: eb}
			}
		}
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MapUpdate:
		m, k, v := c.get(x.Map), c.get(x.Key), c.get(x.Value)
		return func(fr *frame) {
			mm := m(fr).(*Map)
			if mm == nil {
				fr.w.rtPanic("assignment to entry in nil map")
			}
			fr.w.mapSet(mm, k(fr), copyVal(v(fr)))
		}
	case *ssa.Range:
		d, g := c.reg(x), c.get(x.X)
		return func(fr *frame) {
			switch v := g(fr).(type) {
			case string, *SStr:
				fr.regs[d] = &strIter{s: v}
			case *Map:
				fr.regs[d] = fr.w.newMapIter(v)
			default:
				panic(pathEnd{"unsupported", fmt.Sprintf("range over %T", v)})
			}
		}
	case *ssa.Next:
		d, g := c.reg(x), c.get(x.Iter)
		tt := x.Type().(*types.Tuple)
		return func(fr *frame) {
			switch it := g(fr).(type) {
			case *strIter:
				fr.regs[d] = fr.w.strNext(it)
			case *mapIter:
				k, v, ok := it.next(fr.w)
				if !ok {
					fr.regs[d] = Tuple{false, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
				} else {
					fr.regs[d] = Tuple{true, k, copyVal(v)}
				}
			}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		d, g := c.reg(x), c.get(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s := g(fr).([]Value)
			if int64(len(s)) < n {
				fr.w.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)
			}
			if s == nil {
				fr.regs[d] = (*Value)(nil)
				return
			}
			var v Value = Array(s[:n:n])
			fr.regs[d] = &v
		}
	case *ssa.Store:
		a, v := c.get(x.Addr), c.get(x.Val)
		return func(fr *frame) {
			p := a(fr)
			val := v(fr)
			if q, ok := p.(*Value); ok && q != nil {
				switch val.(type) {
				case Struct, Array:
					fr.w.store(q, val)
				default:
					fr.w.set(q, val)
				}
				return
			}
			fr.w.storeTo(p, val)
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Send:
		ch, v := c.get(x.Chan), c.get(x.X)
		return func(fr *frame) { fr.w.chanSend(ch(fr).(*Chan), v(fr)) }
	case *ssa.Select:
		return c.selectInstr(x)
	}
	msg := fmt.Sprintf("instruction %T in %s", in, c.fn)
	return func(fr *frame) { panic(pathEnd{"unsupported", msg}) }
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (w *Worker) boundsCheck(k *Expr, signed bool, n int) {
	kk := w.ctx.Resize(k, 64, signed)
	if !w.branch(w.ctx.Cmp(OUlt, kk, w.ctx.Const(uint64(n), 64))) {
		w.rtPanic("index out of range with length %d", n)
	}
}

func (c *compiler) unop(x *ssa.UnOp) func(*frame) {
	d, g := c.reg(x), c.get(x.X)
	switch x.Op {
	case token.MUL:
		if isString(x.Type()) {
			// Slices of bytes are sometimes converted to strings changing the type of the pointer:
			return func(fr *frame) {
				v := fr.w.load(g(fr))
				if b, ok := v.([]Value); ok {
					v = mkStr(b)
				}
				fr.regs[d] = v
			}
		}
		if elemKind(x.Type()) == types.Uint8 {
			return func(fr *frame) {
				v := fr.w.load(g(fr))
				switch v.(type) {
				case []Value:
				default:
					if _, ok := v.(Array); !ok {
						v = append([]Value{}, strBytes(v)...)
					}
				}
				fr.regs[d] = copyVal(v)
			}
		}
		return func(fr *frame) {
			p := g(fr)
			if q, ok := p.(*Value); ok && q != nil {
				switch v := (*q).(type) {
				case Struct, Array:
					fr.regs[d] = copyVal(v)
				default:
					fr.regs[d] = v
				}
				return
			}
			fr.regs[d] = fr.w.load(p)
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := g(fr).(type) {
			case bool:
				fr.regs[d] = !v
			case *Expr:
				fr.regs[d] = lower(fr.w.ctx.Not(v))
			}
		}
	case token.SUB:
		w, _, isInt := intInfo(x.X.Type())
		fw, _ := isFloat(x.X.Type())
		return func(fr *frame) {
			switch v := g(fr).(type) {
			case I:
				fr.regs[d] = I(-uint64(v) & mask(w))
			case float64:
				fr.regs[d] = -v
			case complex128:
				fr.regs[d] = -v
			case *Expr:
				if !isInt {
					// Negation of a floating point number flips its sign bit:
					fr.regs[d] = lower(fr.w.ctx.Bin(OBxor, v, fr.w.ctx.Const(uint64(1)<<(fw-1), fw)))
					return
				}
				fr.regs[d] = lower(fr.w.ctx.Un(ONeg, v))
			}
		}
	case token.XOR:
		w, _, _ := intInfo(x.X.Type())
		return func(fr *frame) {
			switch v := g(fr).(type) {
			case I:
				fr.regs[d] = I(^uint64(v) & mask(w))
			case *Expr:
				fr.regs[d] = lower(fr.w.ctx.Un(OBnot, v))
			}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			v, ok := fr.w.chanRecv(g(fr).(*Chan), et)
			if commaOk {
				fr.regs[d] = Tuple{v, ok}
			} else {
				fr.regs[d] = v
			}
		}
	}
	panic("unop " + x.Op.String())
}

func (w *Worker) chanSend(ch *Chan, v Value) {
	if ch == nil {
		panic(pathEnd{"unsupported", "send on nil channel blocks"})
	}
	if ch.closed {
		w.rtPanic("send on closed channel")
	}
	if len(ch.buf) >= ch.cap {
		panic(pathEnd{"unsupported", "blocking send"})
	}
	old := ch.buf
	w.undo = append(w.undo, undoRec{fn: func() { ch.buf = old }})
	ch.buf = append(append([]Value(nil), ch.buf...), v)
}

func (w *Worker) chanRecv(ch *Chan, et types.Type) (Value, bool) {
	if ch == nil {
		panic(pathEnd{"unsupported", "receive from nil channel blocks"})
	}
	if len(ch.buf) > 0 {
		old := ch.buf
		w.undo = append(w.undo, undoRec{fn: func() { ch.buf = old }})
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	if ch.closed {
		return zero(et), false
	}
	panic(pathEnd{"unsupported", "blocking receive"})
}

func (c *compiler) selectInstr(x *ssa.Select) func(*frame) {
	d := c.reg(x)
	type st struct {
		dir  types.ChanDir
		ch   func(*frame) Value
		send func(*frame) Value
		et   types.Type
	}
	var sts []st
	for _, s := range x.States {
		e := st{dir: s.Dir, ch: c.get(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			e.send = c.get(s.Send)
		}
		sts = append(sts, e)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		var ready []int
		for i, s := range sts {
			ch := s.ch(fr).(*Chan)
			if ch == nil {
				continue
			}
			if s.dir == types.SendOnly {
				if ch.closed || len(ch.buf) < ch.cap {
					ready = append(ready, i)
				}
			} else if len(ch.buf) > 0 || ch.closed {
				ready = append(ready, i)
			}
		}
		chosen := -1
		if len(ready) > 0 {
			chosen = ready[fr.w.choice(len(ready))]
		} else if blocking {
			panic(pathEnd{"unsupported", "blocking select"})
		}
		res := Tuple{I(uint64(int64(chosen))), false}
		for i, s := range sts {
			if s.dir == types.SendOnly {
				if i == chosen {
					fr.w.chanSend(s.ch(fr).(*Chan), s.send(fr))
				}
				continue
			}
			if i == chosen {
				v, ok := fr.w.chanRecv(s.ch(fr).(*Chan), s.et)
				res[1] = ok
				res = append(res, v)
			} else {
				res = append(res, zero(s.et))
			}
		}
		fr.regs[d] = res
	}
}

// choice makes a nondeterministic choice that is not an input of the harness.
func (w *Worker) choice(n int) int {
	if n <= 1 {
		return 0
	}
	w.ordCount++
	w.usedOrd = true
	v := w.ctx.Var(fmt.Sprintf("order!%d", w.ordCount), 8)
	w.assume(w.ctx.Cmp(OUlt, v, w.ctx.Const(uint64(n), 8)))
	return int(w.concretize(v, "choice"))
}

func (c *compiler) lookup(x *ssa.Lookup) func(*frame) {
	d, g, k := c.reg(x), c.get(x.X), c.get(x.Index)
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		vt := mt.Elem()
		commaOk := x.CommaOk
		return func(fr *frame) {
			m := g(fr).(*Map)
			e := fr.w.mapGet(m, k(fr))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(vt)
			}
			if commaOk {
				fr.regs[d] = Tuple{v, e != nil}
			} else {
				fr.regs[d] = v
			}
		}
	}
	iw, isg, _ := intInfo(x.Index.Type())
	return func(fr *frame) {
		w := fr.w
		s := g(fr)
		n := strLen(s)
		switch ix := k(fr).(type) {
		case I:
			i := signedVal(ix, iw, isg)
			if i < 0 || i >= int64(n) {
				w.rtPanic("index out of range [%d] with length %d", i, n)
			}
			if cs, ok := s.(string); ok {
				fr.regs[d] = I(cs[i])
			} else {
				fr.regs[d] = s.(*SStr).b[i]
			}
		case *Expr:
			w.boundsCheck(ix, isg, n)
			fr.regs[d] = w.loadSym(&SymPtr{elems: strBytes(s), idx: w.ctx.Resize(ix, 64, isg), w: 8})
		}
	}
}

func (c *compiler) slice(x *ssa.Slice) func(*frame) {
	d, g := c.reg(x), c.get(x.X)
	var lo, hi, mx func(*frame) Value
	if x.Low != nil {
		lo = c.get(x.Low)
	}
	if x.High != nil {
		hi = c.get(x.High)
	}
	if x.Max != nil {
		mx = c.get(x.Max)
	}
	return func(fr *frame) {
		w := fr.w
		var l, h, m int64 = 0, -1, -1
		if lo != nil {
			l = w.concInt(lo(fr), "slice bound")
		}
		hset, mset := hi != nil, mx != nil
		if hset {
			h = w.concInt(hi(fr), "slice bound")
		}
		if mset {
			m = w.concInt(mx(fr), "slice bound")
		}
		switch v := g(fr).(type) {
		case string, *SStr:
			n := int64(strLen(v))
			if !hset {
				h = n
			}
			if h < 0 || h > n {
				w.rtPanic("slice bounds out of range [:%d] with length %d", h, n)
			}
			if l < 0 || l > h {
				w.rtPanic("slice bounds out of range [%d:%d]", l, h)
			}
			fr.regs[d] = strSlice(v, int(l), int(h))
		case []Value:
			fr.regs[d] = w.doSlice(v, l, h, m, hset, mset)
		case *Value:
			if v == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := (*v).(Array)
			fr.regs[d] = w.doSlice([]Value(a), l, h, m, hset, mset)
		default:
			panic(pathEnd{"unsupported", fmt.Sprintf("slice of %T", v)})
		}
	}
}

func (w *Worker) doSlice(v []Value, l, h, m int64, hset, mset bool) []Value {
	if !hset {
		h = int64(len(v))
	}
	c := int64(cap(v))
	if !mset {
		m = c
	}
	if m < 0 || m > c || h < 0 || h > m {
		w.rtPanic("slice bounds out of range [:%d] with capacity %d", h, c)
	}
	if l < 0 || l > h {
		w.rtPanic("slice bounds out of range [%d:%d]", l, h)
	}
	if v == nil {
		return nil
	}
	return v[l:h:m]
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) func(*frame) {
	d, g := c.reg(x), c.get(x.X)
	at := x.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	commaOk := x.CommaOk
	return func(fr *frame) {
		w := fr.w
		v := g(fr).(Iface)
		ok := false
		var res Value
		if v.t != nil {
			if toIface {
				ok = w.implements(v.t, at.Underlying().(*types.Interface))
				res = v
			} else if identical(v.t, at) {
				ok = true
				res = copyVal(v.v)
			}
		}
		if commaOk {
			if !ok {
				res = zero(at)
			}
			fr.regs[d] = Tuple{res, ok}
			return
		}
		if !ok {
			if v.t == nil {
				w.rtPanic("interface conversion: interface is nil, not %s", at)
			}
			w.rtPanic("interface conversion: interface is %s, not %s", v.t, at)
		}
		fr.regs[d] = res
	}
}

func identical(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

var implCache sync.Map

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, i)
	implCache.Store(k, r)
	return r
}

func (w *Worker) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	if f, ok := w.methods[k]; ok {
		return f
	}
	w.sh.progMu.Lock()
	ms := w.sh.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil && !token.IsExported(name) {
		// Unexported method of the package of the type:
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	var f *ssa.Function
	if sel != nil {
		f = w.sh.prog.MethodValue(sel)
	}
	w.sh.progMu.Unlock()
	w.methods[k] = f
	return f
}

// prepCall evaluates the function and arguments of a call.
func (c *compiler) prepCall(call *ssa.CallCommon) func(*frame) (Value, []Value) {
	var gs []func(*frame) Value
	for _, a := range call.Args {
		gs = append(gs, c.get(a))
	}
	if call.IsInvoke() {
		recv := c.get(call.Value)
		name := call.Method.Name()
		pkg := call.Method.Pkg()
		return func(fr *frame) (Value, []Value) {
			w := fr.w
			v := recv(fr).(Iface)
			if v.t == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := w.findMethod(v.t, pkg, name)
			if f == nil {
				panic(pathEnd{"unsupported", fmt.Sprintf("no method %s in %s", name, v.t)})
			}
			args := make([]Value, len(gs)+1)
			args[0] = copyVal(v.v)
			for i, g := range gs {
				args[i+1] = g(fr)
			}
			return &Closure{fn: f}, args
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		cl := &Closure{builtin: b}
		return func(fr *frame) (Value, []Value) {
			args := make([]Value, len(gs))
			for i, g := range gs {
				args[i] = g(fr)
			}
			return cl, args
		}
	}
	fv := c.get(call.Value)
	return func(fr *frame) (Value, []Value) {
		f := fv(fr)
		args := make([]Value, len(gs))
		for i, g := range gs {
			args[i] = g(fr)
		}
		return f, args
	}
}

func (c *compiler) call(call *ssa.CallCommon) func(*frame) Value {
	if b, ok := call.Value.(*ssa.Builtin); ok && !call.IsInvoke() {
		return c.builtin(b, call)
	}
	if f, ok := call.Value.(*ssa.Function); ok && !call.IsInvoke() {
		var gs []func(*frame) Value
		for _, a := range call.Args {
			gs = append(gs, c.get(a))
		}
		return func(fr *frame) Value {
			args := make([]Value, len(gs))
			for i, g := range gs {
				args[i] = g(fr)
			}
			return fr.w.callFunction(fr, f, args, nil)
		}
	}
	prep := c.prepCall(call)
	return func(fr *frame) Value {
		f, args := prep(fr)
		return fr.w.callValue(fr, f, args)
	}
}

func (w *Worker) callValue(caller *frame, f Value, args []Value) Value {
	cl, ok := f.(*Closure)
	if !ok {
		panic(pathEnd{"unsupported", fmt.Sprintf("call of %T", f)})
	}
	if cl == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		return cl.native(caller, args)
	}
	if cl.builtin != nil {
		return w.callBuiltin(caller, cl.builtin, args)
	}
	return w.callFunction(caller, cl.fn, args, cl.env)
}

// iterators

type strIter struct {
	s   Value
	pos int
}

func (w *Worker) strNext(it *strIter) Value {
	n := strLen(it.s)
	if it.pos >= n {
		return Tuple{false, I(0), I(0)}
	}
	start := it.pos
	if s, ok := it.s.(string); ok {
		for i, r := range s[start:] {
			_ = i
			l := len(string(r))
			if r == 0xFFFD && !strings.HasPrefix(s[start:], "\uFFFD") {
				l = 1
			}
			it.pos += l
			return Tuple{true, I(start), I(uint64(uint32(r)))}
		}
	}
	b := it.s.(*SStr).b
	switch x := b[start].(type) {
	case I:
		if x < 0x80 {
			it.pos++
			return Tuple{true, I(start), I(x)}
		}
	case *Expr:
		if w.branch(w.ctx.Cmp(OUlt, x, w.ctx.Const(0x80, 8))) {
			it.pos++
			return Tuple{true, I(start), w.ctx.Resize(x, 32, false)}
		}
	}
	// Multi byte sequence: use the library decoder.
	f := w.sh.findFunc("unicode/utf8", "DecodeRuneInString")
	r := w.callFunction(w.cur, f, []Value{mkStr(b[start:])}, nil).(Tuple)
	it.pos += int(w.concInt(r[1], "rune length"))
	return Tuple{true, I(start), r[0]}
}

// maxAnyOrder is the largest number of entries of a map whose orders are all explored.
const maxAnyOrder = 4

type mapIter struct {
	m    *Map
	ents []*mapEnt
	pos  int
	any  bool
}

func (w *Worker) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m != nil {
		for _, e := range m.ents {
			if !e.deleted {
				it.ents = append(it.ents, e)
			}
		}
	}
	it.any = w.mapOrder
	if it.any && len(it.ents) > maxAnyOrder {
		// All the orders of a large map are too many, only two opposite ones are explored.
		it.any = false
		if w.choice(2) == 1 {
			for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
				it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
			}
		}
	}
	return it
}

func (it *mapIter) next(w *Worker) (Value, Value, bool) {
	for {
		var live []*mapEnt
		for _, e := range it.ents {
			if !e.deleted {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			// Entries added during the iteration may or may not be produced; they aren't.
			return nil, nil, false
		}
		i := 0
		if it.any {
			i = w.choice(len(live))
		}
		e := live[i]
		it.ents = append(append([]*mapEnt(nil), live[:i]...), live[i+1:]...)
		return e.k, e.v, true
	}
}

// maps

func (w *Worker) mapGet(m *Map, k Value) *mapEnt {
	if m == nil || m.live == 0 {
		return nil
	}
	key, ok := canonKey(k)
	if ok {
		if e := m.idx[key]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if ok {
			if _, conc := canonKey(e.k); conc {
				continue
			}
		}
		if w.truth(w.equal(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	if e := w.mapGet(m, k); e != nil {
		old := e.v
		if w.initing == 0 {
			w.undo = append(w.undo, undoRec{fn: func() { e.v = old }})
		}
		e.v = v
		return
	}
	e := &mapEnt{k: copyVal(k), v: v}
	key, ok := canonKey(k)
	m.ents = append(m.ents, e)
	m.live++
	if ok {
		m.idx[key] = e
	} else {
		m.nsym++
	}
	if w.initing == 0 {
		w.undo = append(w.undo, undoRec{fn: func() {
			m.ents = m.ents[:len(m.ents)-1]
			m.live--
			if ok {
				delete(m.idx, key)
			} else {
				m.nsym--
			}
		}})
	}
}

func (w *Worker) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	e := w.mapGet(m, k)
	if e == nil {
		return
	}
	key, ok := canonKey(e.k)
	e.deleted = true
	m.live--
	ents := m.ents
	var ne []*mapEnt
	for _, x := range m.ents {
		if x != e {
			ne = append(ne, x)
		}
	}
	m.ents = ne
	if ok {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	if w.initing == 0 {
		w.undo = append(w.undo, undoRec{fn: func() {
			m.ents = ents
			e.deleted = false
			m.live++
			if ok {
				m.idx[key] = e
			} else {
				m.nsym++
			}
		}})
	}
}
