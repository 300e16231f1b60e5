package main

// Path exploration: every path is executed from the start of the harness following a prefix of
// recorded decisions; each decision on a symbolic condition leaves its other side pending, and the
// solver decides whether that side is feasible when it is taken up.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// pathEnd is used to abandon the current path.
type pathEnd struct {
	kind string // infeasible, done, violation, limit, unsupported
	msg  string
}

// targetPanic is a Go panic of the program under analysis.
type targetPanic struct {
	v     Iface
	trace string
}

type workItem struct {
	prefix []uint64
	vals   map[string]uint64
}

type NdRec struct {
	Name string      `json:"n"`
	Kind string      `json:"k"`
	Val  interface{} `json:"v"`

	v Value
	t types.Type
}

type Obs struct {
	Label string `json:"l"`
	Val   string `json:"v"`

	v Value
}

type Finding struct {
	Harness string  `json:"harness"`
	Kind    string  `json:"kind"` // assert, panic, nontermination
	Msg     string  `json:"msg"`
	Inputs  []NdRec `json:"inputs"`
	Detail  string  `json:"detail"`
	order   bool    // depends on the iteration order of maps
	subst   bool    // depends on a substituted value
}

// Trace is a completed path, with its inputs and observations under a concrete model.
type Trace struct {
	Inputs []NdRec `json:"inputs"`
	Obs    []Obs   `json:"obs"`
	Panic  bool    `json:"panic,omitempty"`
}

// Run is the exploration of one harness function.
type Run struct {
	sh      *Shared
	name    string
	fn      *ssa.Function
	opts    Options
	mu      sync.Mutex
	cond    *sync.Cond
	stack   []workItem
	active  int
	stopped bool

	stats    Stats
	findings []Finding
	maxSteps int
	traces   []Trace
	reached  map[string]int
	bounds   map[string]int
	incompl  map[string]int
	deadline time.Time
}

type Options struct {
	Tier        string
	MaxSteps    int
	MaxDepth    int
	MaxPaths    int
	MaxFindings int
	Workers     int
	Timeout     time.Duration
	TraceEvery  int
	MaxTraces   int
}

type Stats struct {
	Paths      int           // paths executed to their end
	Infeasible int           // pending sides shown infeasible by the solver
	Decisions  int           // symbolic branch decisions
	Asserts    int           // assertions reached
	AssertsSym int           // assertions with a symbolic condition, decided by the solver
	Queries    int           // solver queries
	Sat        int           //
	Unsat      int           //
	Unknown    int           //
	Domain     int           // feasibility questions decided on the domain of one variable
	CacheHits  int           // queries answered from the cache of identical queries
	SolverTime time.Duration //
	Steps      int64         // SSA instructions executed
	Symbols    int           // largest number of symbolic inputs in one path
}

func (s *Stats) add(o Stats) {
	s.Paths += o.Paths
	s.Infeasible += o.Infeasible
	s.Decisions += o.Decisions
	s.Asserts += o.Asserts
	s.AssertsSym += o.AssertsSym
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.CacheHits += o.CacheHits
	s.Domain += o.Domain
	s.SolverTime += o.SolverTime
	s.Steps += o.Steps
	if o.Symbols > s.Symbols {
		s.Symbols = o.Symbols
	}
}

type undoRec struct {
	addr *Value
	old  Value
	fn   func()
}

type Worker struct {
	sh     *Shared
	run    *Run
	ctx    *Ctx
	solver *Solver

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	initing int
	undo    []undoRec

	// path state
	prefix   []uint64
	pos      int
	taken    []uint64
	pc       []*Expr
	known    map[int]bool
	model    *Model
	nd       []NdRec
	obs      []Obs
	domains  map[string]map[string]bool
	ndCount  int
	ordCount int
	steps    int
	depth    int
	mapOrder bool
	opaque   bool
	fake     bool
	now      Value
	handles  []handle
	fixedMap bool
	usedOrd  bool
	subst    bool
	epochs   int
	stats    Stats
	cache    map[string]cacheEnt
	varsOf   map[int][]int
	methods  map[methKey]*ssa.Function
	cur      *frame
	scratch  map[string]Value
}

type cacheEnt struct {
	res  string
	vals map[string]uint64
}

type methKey struct {
	t    types.Type
	name string
}

func newWorker(sh *Shared) *Worker {
	return &Worker{
		sh:      sh,
		ctx:     NewCtx(),
		globals: map[*ssa.Global]*Value{},
		inited:  map[*ssa.Package]bool{},
		cache:   map[string]cacheEnt{},
		varsOf:  map[int][]int{},
		methods: map[methKey]*ssa.Function{},
	}
}

// Explore runs the harness over all its paths.
func (r *Run) Explore(workers []*Worker) {
	r.cond = sync.NewCond(&r.mu)
	r.reached = map[string]int{}
	r.bounds = map[string]int{}
	r.incompl = map[string]int{}
	r.stack = []workItem{{}}
	r.deadline = time.Now().Add(r.opts.Timeout)
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			debug.SetMaxStack(4 << 30)
			w.run = r
			w.stats = Stats{}
			if w.solver == nil {
				w.solver = NewSolver()
			}
			s0 := *w.solver
			for {
				item, ok := r.take()
				if !ok {
					break
				}
				w.runPath(item)
				r.release()
			}
			w.stats.Queries = w.solver.queries - s0.queries
			w.stats.Sat = w.solver.sat - s0.sat
			w.stats.Unsat = w.solver.unsat - s0.unsat
			w.stats.Unknown = w.solver.unknown - s0.unknown
			w.stats.SolverTime = w.solver.time - s0.time
			r.mu.Lock()
			r.stats.add(w.stats)
			for _, e := range w.solver.errs[len(s0.errs):] {
				r.incompl["solver: "+e]++
			}
			r.mu.Unlock()
		}(w)
	}
	wg.Wait()
}

func (r *Run) take() (workItem, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped {
			return workItem{}, false
		}
		if time.Now().After(r.deadline) {
			if len(r.stack) > 0 {
				r.incompl[fmt.Sprintf("time limit of %v reached", r.opts.Timeout)]++
			}
			r.stopped = true
			r.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(r.stack); n > 0 {
			it := r.stack[n-1]
			r.stack = r.stack[:n-1]
			r.active++
			return it, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return workItem{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) release() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.stack) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Run) push(it workItem) {
	r.mu.Lock()
	r.stack = append(r.stack, it)
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *Run) incomplete(why string) {
	r.mu.Lock()
	r.incompl[why]++
	r.mu.Unlock()
}

func (r *Run) addFinding(f Finding) {
	r.mu.Lock()
	r.findings = append(r.findings, f)
	if len(r.findings) >= r.opts.MaxFindings {
		r.stopped = true
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (w *Worker) newModel(vals map[string]uint64) *Model {
	w.epochs++
	return &Model{vals: vals, epoch: w.epochs}
}

func (w *Worker) runPath(item workItem) {
	if w.ctx.next > 3000000 {
		n := w.ctx.next
		w.ctx.Reset()
		w.ctx.next = n
		w.cache = map[string]cacheEnt{}
		w.varsOf = map[int][]int{}
		w.solver.Restart()
	}
	w.prefix = item.prefix
	w.pos = 0
	w.taken = append([]uint64(nil), item.prefix...)
	w.pc = w.pc[:0]
	w.known = map[int]bool{}
	w.nd = nil
	w.obs = nil
	w.ndCount = 0
	w.ordCount = 0
	w.steps = 0
	w.depth = 0
	w.mapOrder = false
	w.opaque = false
	w.fake = false
	w.handles = nil
	w.usedOrd = false
	w.subst = false
	w.scratch = map[string]Value{}
	w.undo = w.undo[:0]
	vals := item.vals
	if vals == nil {
		vals = map[string]uint64{}
	}
	w.model = w.newModel(vals)

	defer func() {
		for i := len(w.undo) - 1; i >= 0; i-- {
			u := &w.undo[i]
			if u.fn != nil {
				u.fn()
			} else {
				*u.addr = u.old
			}
			*u = undoRec{}
		}
		w.undo = w.undo[:0]
		w.stats.Steps += int64(w.steps)
		if w.ndCount > w.stats.Symbols {
			w.stats.Symbols = w.ndCount
		}
	}()
	defer func() {
		r := recover()
		w.initing = 0
		switch x := r.(type) {
		case nil:
		case pathEnd:
			switch x.kind {
			case "infeasible":
				w.stats.Infeasible++
			case "done", "assume":
			case "violation":
			case "limit":
				w.stats.Paths++
				// A path that runs over the step limit may be a loop that never ends;
				// native execution of the same input tells.
				w.run.addFinding(Finding{Harness: w.run.name, Kind: "nontermination",
					Msg: x.msg, Inputs: w.inputs(), order: w.usedOrd, subst: w.subst})
			default:
				w.run.incomplete(x.kind + ": " + x.msg)
			}
		case targetPanic:
			w.stats.Paths++
			if w.replaying() {
				w.run.incomplete("panic while replaying a prefix")
				return
			}
			w.run.addFinding(Finding{Harness: w.run.name, Kind: "panic",
				Msg: "panic: " + w.showPanic(x.v), Inputs: w.inputs(), Detail: x.trace,
				order: w.usedOrd, subst: w.subst})
		default:
			st := string(debug.Stack())
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "engine panic:", r, "\n", st)
			}
			w.run.incomplete(fmt.Sprintf("engine: %v at %s", r, w.where()))
		}
	}()
	w.callFunction(nil, w.run.fn, nil, nil)
	// Path completed:
	w.stats.Paths++
	w.finish(false)
}

func (w *Worker) replaying() bool { return w.pos < len(w.prefix) }

func (w *Worker) finish(panicked bool) {
	r := w.run
	r.mu.Lock()
	n := r.stats.Paths + w.stats.Paths
	keep := len(r.traces) < r.opts.MaxTraces && (n < 8 || n%r.opts.TraceEvery == 0)
	r.mu.Unlock()
	if !keep || w.usedOrd || w.subst {
		return
	}
	t := Trace{Inputs: w.inputs(), Panic: panicked}
	for _, o := range w.obs {
		o.Val = w.showObs(o.v)
		t.Obs = append(t.Obs, o)
	}
	r.mu.Lock()
	r.traces = append(r.traces, t)
	r.mu.Unlock()
}

func (w *Worker) showObs(v Value) string { return show(v, w.model, 0) }

func (w *Worker) showPanic(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	s := show(v.v, w.model, 0)
	// Try the Error method:
	if types.Implements(v.t, errorIface) {
		func() {
			defer func() { recover() }()
			if f := w.findMethod(v.t, nil, "Error"); f != nil {
				s = show(w.callFunction(nil, f, []Value{v.v}, nil), w.model, 0)
			}
		}()
	}
	return s
}

// inputs evaluates the recorded nondeterministic inputs under the current model.
func (w *Worker) inputs() []NdRec {
	out := make([]NdRec, len(w.nd))
	for i, r := range w.nd {
		out[i] = NdRec{Name: r.Name, Kind: r.Kind, Val: w.concreteJSON(r.v, r.Kind)}
	}
	return out
}

func (w *Worker) evalInt(v Value) uint64 {
	switch x := v.(type) {
	case I:
		return uint64(x)
	case *Expr:
		return x.Eval(w.model)
	case bool:
		return b2u(x)
	}
	panic(fmt.Sprintf("evalInt %T", v))
}

func (w *Worker) concreteJSON(v Value, kind string) interface{} {
	switch kind {
	case "string":
		bs := strBytes(v)
		out := make([]int, len(bs))
		for i, b := range bs {
			out[i] = int(w.evalInt(b))
		}
		return out
	case "bool":
		return w.evalInt(v) != 0
	default:
		return fmt.Sprintf("%d", w.evalInt(v))
	}
}

func (w *Worker) addPC(c *Expr) {
	w.pc = append(w.pc, c)
	w.known[c.id] = true
	if c.op == ONot {
		w.known[c.a.id] = false
	}
	if c.op == OAnd {
		w.known[c.a.id] = true
		w.known[c.b.id] = true
	}
}

// vars returns the identifiers of the variables of a term.
func (w *Worker) vars(e *Expr) []int {
	if e == nil || e.op == OConst {
		return nil
	}
	if e.op == OVar {
		return []int{e.id}
	}
	if v, ok := w.varsOf[e.id]; ok {
		return v
	}
	set := map[int]bool{}
	for _, k := range []*Expr{e.a, e.b, e.c} {
		for _, v := range w.vars(k) {
			set[v] = true
		}
	}
	out := make([]int, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Ints(out)
	w.varsOf[e.id] = out
	return out
}

// slice selects the constraints connected with the given term.
func (w *Worker) slice(c *Expr) []*Expr {
	rel := map[int]bool{}
	for _, v := range w.vars(c) {
		rel[v] = true
	}
	used := make([]bool, len(w.pc))
	out := []*Expr{}
	for changed := true; changed; {
		changed = false
		for i, p := range w.pc {
			if used[i] {
				continue
			}
			hit := false
			vs := w.vars(p)
			for _, v := range vs {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range vs {
					rel[v] = true
				}
			}
		}
	}
	return out
}

// query decides whether the path condition and the given term are satisfiable together, and returns the
// values of the related inputs; the path condition alone is known to be satisfied by the current model.
func (w *Worker) query(c *Expr) (string, map[string]uint64) {
	if c.isFalse() {
		return "unsat", nil
	}
	cs := append(w.slice(c), c)
	ids := make([]int, len(cs))
	for i, x := range cs {
		ids[i] = x.id
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	ent, ok := w.cache[key]
	if ok {
		w.stats.CacheHits++
	} else {
		set := map[int]bool{}
		var vars []*Expr
		for _, x := range cs {
			for _, v := range w.vars(x) {
				if !set[v] {
					set[v] = true
					vars = append(vars, w.ctx.vars[v])
				}
			}
		}
		ent.res, ent.vals = w.solver.Check(cs, vars)
		w.cache[key] = ent
	}
	return ent.res, ent.vals
}

// merge returns the values of the current model with the given ones in their place.
func (w *Worker) merge(vals map[string]uint64) map[string]uint64 {
	nv := make(map[string]uint64, len(w.model.vals)+len(vals))
	for k, v := range w.model.vals {
		nv[k] = v
	}
	for k, v := range vals {
		nv[k] = v
	}
	return nv
}

// sat decides the same, and on success the model is updated.
func (w *Worker) sat(c *Expr) string {
	res, vals := w.query(c)
	if res == "sat" {
		w.model = w.newModel(w.merge(vals))
	}
	return res
}

// branch decides a symbolic condition.
func (w *Worker) branch(c *Expr) bool {
	if c.isConst() {
		return c.val != 0
	}
	if k, ok := w.known[c.id]; ok {
		return k
	}
	// Comparisons of booleans are decided one side at a time, which keeps unrelated inputs
	// unrelated in the path condition:
	if c.op == ONot {
		return !w.branch(c.a)
	}
	if c.op == OEq && c.a.w == 0 {
		x, y := w.branch(c.a), w.branch(c.b)
		return x == y
	}
	if w.initing > 0 {
		panic(pathEnd{"unsupported", "symbolic decision in package initialization"})
	}
	w.stats.Decisions++
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos] != 0
		w.pos++
		k := c
		if !d {
			k = w.ctx.Not(c)
		}
		w.addPC(k)
		return d
	}
	d := c.Eval(w.model) != 0
	k, other := c, w.ctx.Not(c)
	if !d {
		k, other = other, k
	}
	// The other side is left pending only if it is feasible:
	res, vals := w.query(other)
	switch res {
	case "unsat":
		w.stats.Infeasible++
	case "sat":
		alt := make([]uint64, len(w.taken)+1)
		copy(alt, w.taken)
		alt[len(w.taken)] = b2u(!d)
		w.run.push(workItem{alt, w.merge(vals)})
	default:
		w.run.incomplete("unsupported: solver gave no answer")
	}
	w.taken = append(w.taken, b2u(d))
	w.pos = len(w.taken)
	w.prefix = w.taken
	w.addPC(k)
	return d
}

// concretize forks over the possible values of a term.
func (w *Worker) concretize(e *Expr, why string) uint64 {
	if e.isConst() {
		return e.val
	}
	for i := 0; ; i++ {
		if i > 400 {
			panic(pathEnd{"unsupported", "too many values to fork on: " + why})
		}
		var v uint64
		if w.pos < len(w.prefix) {
			v = w.prefix[w.pos]
			w.pos++
		} else {
			v = e.Eval(w.model)
			w.taken = append(w.taken, v)
			w.prefix = w.taken
			w.pos = len(w.taken)
		}
		if w.branch(w.ctx.Eq(e, w.ctx.Const(v, e.w))) {
			return v
		}
	}
}

// substitute picks one value of a term, which makes the exploration incomplete.
func (w *Worker) substitute(e *Expr, why string) uint64 {
	w.run.incomplete("substituted a value: " + why)
	w.subst = true
	return w.concretize(e, why)
}

func (w *Worker) assume(c *Expr) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	if w.pos < len(w.prefix) {
		w.addPC(c)
		return
	}
	if c.Eval(w.model) == 0 {
		switch w.sat(c) {
		case "unsat":
			panic(pathEnd{"assume", ""})
		case "unknown":
			panic(pathEnd{"unsupported", "solver gave no answer"})
		}
	}
	w.addPC(c)
}

func (w *Worker) assert(c *Expr, msg string) {
	w.stats.Asserts++
	if w.pos < len(w.prefix) {
		if !c.isConst() {
			w.addPC(c)
		}
		return
	}
	if c.isTrue() {
		return
	}
	if !c.isConst() {
		w.stats.AssertsSym++
	}
	switch w.sat(w.ctx.Not(c)) {
	case "sat":
	case "unsat":
		if !c.isConst() {
			w.addPC(c)
			return
		}
		// A constant false assertion on a feasible path:
	case "unknown":
		panic(pathEnd{"unsupported", "solver gave no answer"})
	}
	if w.usedOrd || true {
		w.stats.Paths++
	}
	w.run.addFinding(Finding{Harness: w.run.name, Kind: "assert", Msg: msg, Inputs: w.inputs(),
		Detail: w.where(), order: w.usedOrd, subst: w.subst})
	panic(pathEnd{"violation", msg})
}

func (w *Worker) where() string {
	var parts []string
	for f, i := w.cur, 0; f != nil && i < 12; f, i = f.caller, i+1 {
		parts = append(parts, f.code.fn.String())
	}
	return strings.Join(parts, " < ")
}

var execCount int64

func countExec() { atomic.AddInt64(&execCount, 1) }
